PROP='C10'
NEEDS='a record whose digest header differs from the digest of its body only in the second half, for instance a header written for a body whose recorded digest was damaged there'
BREAKS='audit compares only the first half of the digests'
EDITS=[('main_audit.c','''	} else if (strcmp(is + 7, expect)) {
		VSB_printf(err, "ERROR: %s difference\\n", hdn);
''','''	} else if (strncmp(is + 7, expect, SHA256_DIGEST_LENGTH)) {
		VSB_printf(err, "ERROR: %s difference\\n", hdn);
''')]
#DEMO
a = Arch(); a.store(b'some object' * 10)
need(a.run('audit')[0] == 0, 'audit of a good archive')
f = a.silo_files()[0]; b = open(f, 'rb').read(); r = walk(f)[1]
h = bytearray(r[1].encode()); p = h.index(b'WARC-Block-Digest: sha256:') + len(b'WARC-Block-Digest: sha256:') + 50
h[p] = ord('0') if h[p] != ord('0') else ord('1')
c = zlib.compressobj(9, zlib.DEFLATED, -15); z = c.compress(bytes(h)) + c.flush()
m = b'\x1f\x8b\x08\x04' + b'\0' * 4 + b'\x02\x03' + struct.pack('<H', 12) + b'Aa\x08\0' + struct.pack('<Q', 24 + len(z) + 8) + z + struct.pack('<II', zlib.crc32(bytes(h)), len(h))
os.chmod(f, 0o644); open(f, 'wb').write(b[:r[0]] + m + b[r[0] + r[3]:])
rc, o, e = a.run('audit')

need(b'ERROR' in o, 'audit does not notice the changed digest')
