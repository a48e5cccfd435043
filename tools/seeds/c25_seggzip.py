PROP='C25'
NEEDS='a client which accepts gzip requests an object that is segmented'
BREAKS='gzip is used for segmented objects, so the content length (the sum of the member lengths) does not match the stitched body'
EDITS=[('main_cgi.c','''	if (GetJob_IsSegmented(gj))
		gzip = 0;
''','''	(void)GetJob_IsSegmented(gj);
''')]
#DEMO
a = Arch(maxsize='3000')
d = noise(7000); i = a.store(d)
for enc in (None, 'gzip, deflate'):
    env = {'GATEWAY_INTERFACE': 'CGI/1.1', 'REQUEST_METHOD': 'GET', 'PATH_INFO': '/' + a.id_of(d)}
    if enc: env['HTTP_ACCEPT_ENCODING'] = enc
    rc, o, e = a.run('cgi', env=env)
    need(rc == 0, 'cgi fails')
    h, b = o.split(b'\n\n', 1)
    n = int(re.search(rb'(?m)^Content-Length: (\d+)', h).group(1))
    need(n == len(b), 'content length %d, body %d' % (n, len(b)))
    if b'Content-Encoding: gzip' in h:
        b = gzip.decompress(b)
    need(b == d, 'wrong body')
