import subprocess, sys, re, os, tempfile
calc = sys.argv[1]
def run(data, **k):
    if isinstance(data, str): data = data.encode()
    return subprocess.run([calc], input=data, capture_output=True, timeout=60, **k)
def results(out):
    return re.findall(r'([a-z]) \u2190 (.*)', out.decode('utf-8', 'replace'))

a = run('takum64\n' + ''.join('1.%d 3 /\n' % i for i in range(1, 26)) + 'takum_linear32\n' + ''.join('%c %.5f -\n' % (97 + i, float('1.%d' % (i + 1)) / 3) for i in range(25)))
r = results(a.stdout)
vals = [v for _, v in r[25:]]
t = tempfile.mkdtemp()
open(t + '/x.c', 'w').write(r"""
#include <stdio.h>
#include <stdlib.h>
#include <inttypes.h>
#include "takum.h"
int main(void){ for (int i=1;i<26;i++){ char b[20]; sprintf(b,"1.%d",i); long double v=strtold(b,0); takum64 q=takum64_division(takum64_from_extended_float(v),takum64_from_extended_float(3)); char c[20]; sprintf(c,"%.5f",atof(b)/3); takum_linear32 x=takum_linear32_subtraction(takum_linear32_from_takum64(q),takum_linear32_from_extended_float(strtold(c,0))); double f=takum_linear32_to_float64(x); if (f==(int64_t)f) printf("%"PRId64"\n",(int64_t)f); else printf("%Lg\n",takum_linear32_to_extended_float(x)); } return 0; }
""")
subprocess.run(['gcc', '-w', '-I.', '-o', t + '/x', t + '/x.c', './libtakum.a', '-lm'], check=True)
want = subprocess.run([t + '/x'], capture_output=True, text=True).stdout.split()
import shutil; shutil.rmtree(t)
sys.exit(vals != want)
