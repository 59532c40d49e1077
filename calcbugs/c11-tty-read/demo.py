import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

import pty, time, select, tty, termios
m, s = pty.openpty()
a = termios.tcgetattr(s); a[3] &= ~termios.ECHO; a[1] &= ~termios.OPOST; termios.tcsetattr(s, termios.TCSANOW, a)
p = subprocess.Popen([calc], stdin=s, stdout=s, stderr=subprocess.PIPE)
os.set_blocking(p.stderr.fileno(), False)
got = b''
def wait(cond, secs=5):
    global got
    end = time.time() + secs
    while time.time() < end:
        if select.select([m], [], [], .05)[0]: got += os.read(m, 65536)
        if cond(): return True
    return False
def typ(x): os.write(m, x if isinstance(x, bytes) else x.encode())
def done(rc):
    p.kill(); p.wait(); sys.exit(rc)

typ('1 2 '); time.sleep(.5); typ(b'\x04'); time.sleep(.5); typ('+\n')
wait(lambda: len(results(got)) > 0, 3)
r = results(got)
e = p.stderr.read() or b''
# Ctrl+D twice ends the input; one in a line only hands over what there is
done(r != [('a', '3')] or e != b'')
