"""replay.py PROPERTY DRIVER ARGS...: rebuilds the driver from /repo and runs exactly the reported cases again"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import drivers
found, info = drivers.run1(sys.argv[2], sys.argv[1], sys.argv[3:])
print(info)
if found:
    print(found['text'])
sys.exit(1 if found else 0)
