#!/usr/bin/env python3
# nothing has to be installed or built beforehand: says which of the tools the checks use are present
import shutil,sys
missing=[t for t in ('clang','why3','z3','cvc5','cbmc') if not shutil.which(t)]
print('tools missing:',missing or 'none')
sys.exit(0)
