"""The command of a piped run: does what a file says (see tools/vf/props/tools.py)."""
import json, os, signal, sys, time
with open(sys.argv[1]) as f:
    script = json.load(f)
for k, *v in script:
    if k in 'oe':                       # write n bytes at a time
        fd, data, n = (1 if k == 'o' else 2), v[0].encode('latin-1'), v[1]
        i = 0
        while i < len(data):
            i += os.write(fd, data[i:i + n])
    elif k == 'p':
        time.sleep(v[0] / 1000)
    elif k == 'c':
        os.close(v[0])
    elif k == 'x':
        os._exit(v[0])
    elif k == 's':
        if v[0] not in (signal.SIGKILL, signal.SIGSTOP):
            signal.signal(v[0], signal.SIG_DFL)
        os.kill(os.getpid(), v[0])
        time.sleep(5)
