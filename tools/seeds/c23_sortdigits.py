PROP='C23'
NEEDS='a list which is in order in the first eight digits of all IDs but not beyond, in which a later listed ID comes first in the index'
BREAKS='whether the list needs sorting is decided on the first eight digits only, so IDs sharing them may be reported missing'
EDITS=[('main_filter.c','''		if (c2 != NULL && strcmp(c2->id, c1->id) > 0)
''','''		if (c2 != NULL && strncmp(c2->id, c1->id, 8) > 0)
''')]
#DEMO
a = Arch()
ids = [a.store(b'o%d' % i).rsplit('/', 1)[-1] for i in range(3)]
need(a.run('housekeeping')[0] == 0, 'housekeeping')
for i in ids:
    # 'other' shares 8 digits with i but is behind it
    other = i[:8] + 'f' * (len(i) - 8)
    rc, o, e = a.run('filter', '-v', stdin=(other + '\n' + i + '\n').encode())
    need(rc == 0 and o.decode() == '0 %s\n1 %s\n' % (other, i), 'filter reports %r' % o)
    # many lines: the candidate list moves on past the first mismatch
    for j in ids:
        rc, o, e = a.run('filter', '-v', stdin=(other + '\n' + i + '\n' + j + '\n').encode())
        need(o.decode() == '0 %s\n1 %s\n1 %s\n' % (other, i, j), 'filter reports %r' % o)
