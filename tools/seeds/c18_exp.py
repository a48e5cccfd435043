PROP='C18'
NEEDS='a size with an exponent of two digits, such as 1e10 or 15e-01'
BREAKS='only the last digit of the exponent counts, sizes are off by factors of ten to the tenth'
EDITS=[('vnum.c','''			ee = ee * 10. + *p - '0';
''','''			ee = *p - '0';
''')]
#DEMO
exe = build(VASF + r"""
const char *VNUM_2bytes(const char *, uintmax_t *, uintmax_t);
int main(int c, char **v) { uintmax_t u = 0; const char *e = VNUM_2bytes(v[1], &u, 0); if (e) puts(e); else printf("%ju\n", u); return 0; }
""", ['vnum.c', 'vas.c'])
for s, w in (('2e3', 2000), ('1e10', 10**10), ('3e+12', 3 * 10**12), ('15e-01k', 1536), ('1e03', 1000), ('4k', 4096)):
    o = subprocess.run([exe, s], stdout=subprocess.PIPE, text=True).stdout.strip()
    need(o == str(w), '%s is %s instead of %d' % (s, o, w))
