import sys
if sys.argv[1:2] == ['--selftest']:
    from mc.order import selftest
    selftest()
    print('selftest of the enumerators: ok')
    sys.exit(0)
from mc.core import main
sys.exit(main())
