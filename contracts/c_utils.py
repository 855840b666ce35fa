from pyvc.core import C, L, contract

U = "explorerscript.ssb_converting.compiler.utils:"

contract(U + "Counter.__init__", "C01 C03", modifies=["self.count"], ensures=["self.count == 0"])
contract(U + "Counter.__call__", "C01 C03", result="int", modifies=["self.count"],
         ensures=["self.count == old(self.count) + 1", "result == self.count"])
contract(U + "Counter.allocate", "C01 C03", modifies=["self.count"],
         ensures=["self.count == old(self.count) + how_many", "result == old(self.count) + 1"])
contract(U + "Counter.next_id", "C01 C03", ensures=["result == self.count + 1"])
