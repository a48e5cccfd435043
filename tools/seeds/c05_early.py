PROP='C05'
NEEDS='the store is killed between the silo becoming visible and its header being rewritten, or a reader looks at it in between'
BREAKS='a new silo is put in place before its final header is written, so for a while (and after a crash for good) it holds a record with wrong length and digest and no proper ID'
EDITS=[('wsilo.c','''	s = pwrite(sl->hold_fd, VSB_data(vsb),
	    sl->hd_len, sl->hd_start);
	assert(s == sl->hd_len);

	VSB_delete(vsb);

''',''),('wsilo.c','''			sl->idx |= IDX_F_LASTSEG;
	}
	wsilo_install(sl);
''','''			sl->idx |= IDX_F_LASTSEG;
	}
	wsilo_install(sl);

	s = pwrite(sl->hold_fd, VSB_data(vsb),
	    sl->hd_len, sl->hd_start);
	assert(s == sl->hd_len);
	VSB_delete(vsb);

''')]
#DEMO
lib = shim(r'''
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { _exit(77); }
ssize_t pwrite64(int fd, const void *p, size_t n, off_t o) { _exit(77); }
''')
a = Arch(maxsize='3000'); a.store(b'first')
rc, o, e = a.run('store', stdin=noise(7000), preload=lib); need(rc == 77, 'the store was not interrupted')
for f in a.silo_files():
    for r in walk(f):
        need('sha256:' + hashlib.sha256(r[2]).hexdigest() == hdr(r, 'WARC-Block-Digest') and int(hdr(r, 'Content-Length')) == len(r[2]), 'a record of %s does not describe its body' % f)
