"""builds the IR dumper and the dump of the current tree (checks do so themselves when needed)"""
import build
print(build.dump()[0])
