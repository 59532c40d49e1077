import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

import fcntl, time
r, w = os.pipe()
fcntl.fcntl(w, 1031, 4096)
os.set_blocking(w, False); os.set_blocking(r, False)
n = 0
try:
    while True: n += os.write(w, b'#' * 64)
except BlockingIOError: pass
p = subprocess.Popen([calc], stdin=subprocess.PIPE, stdout=w, stderr=subprocess.DEVNULL)
p.stdin.write(b'5\n'); p.stdin.flush(); time.sleep(1)
got = b''
def drain():
    global got
    try:
        while True:
            x = os.read(r, 4096)
            if not x: break
            got += x
    except BlockingIOError: pass
drain()
p.stdin.write(b'7\n'); p.stdin.flush(); time.sleep(1); drain()
p.stdin.write(b'a b +\n'); p.stdin.close(); p.wait(); drain()
want = [('a', '5'), ('b', '7'), ('c', '12')]
have = results(got)
sys.exit(not have or any(x not in want for x in have))
