PROP='C11'
NEEDS='a segmented object one of whose continuation segments was replaced by other data of the same length, with headers to match'
BREAKS='the payload digest of segmented objects is not verified, so the wrong bytes are delivered with a successful exit'
EDITS=[('main_get.c','''			assert(!strncmp(p, dig, aa->id_size));
''','''			if (hdr1 == hdr9)
				assert(!strncmp(p, dig, aa->id_size));
''')]
#DEMO
a = Arch(maxsize='3000'); d = noise(5000)
i = a.store(d); need(a.get(i, '-q')[1] == d, 'not retrievable')
f = a.silo_files()[1]; b = open(f, 'rb').read(); r = walk(f)[1]
body = bytearray(r[2]); body[7] ^= 1
c = zlib.compressobj(9, zlib.DEFLATED, -15); z = c.compress(bytes(body)) + c.flush()
m = b'\x1f\x8b\x08\x04' + b'\0' * 4 + b'\x02\x03' + struct.pack('<H', 12) + b'Aa\x08\0' + struct.pack('<Q', 24 + len(z) + 8) + z + struct.pack('<II', zlib.crc32(bytes(body)), len(body))
o = r[0] + r[3]
os.chmod(f, 0o644); open(f, 'wb').write(b[:o] + m + b[o + r[4]:])
rc, o, e = a.get(i, '-q')
need(rc != 0 or o == d, 'get delivers damaged content successfully')
