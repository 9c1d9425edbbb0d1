FUNCTIONS = ['nginx-toolkit-module/ngx_toolkit_misc.c: ngx_parse_request_url, ngx_request_port, ngx_sock_pton, ngx_sock_pton_unix, '
             'ngx_sock_pton_inet, ngx_sock_pton_inet6, ngx_copy_str']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'ngx_strnstr, ngx_strncasecmp, ngx_atoi, ngx_cpystrn (nginx core) as their sources',
           'ngx_inet_addr, ngx_inet6_addr (nginx core): any answer, to exactly the text they are given']
ASSUMPTIONS = ['no NUL byte in the text', 'the caller hands over a cleared result structure']
UNITS = []
B = ['--max-field-sensitivity-array-size', '512']
def u(name, entry, ln, thor=False, **kw):
    d = ['LEN=%d' % ln] + kw.pop('defs', [])
    UNITS.append(dict(dict(name='%s_%d' % (name, ln), kind='bounded', src='url.c', entry=entry, unwind=max(ln, 16) + 4, timeout=400,
        cbmc=B, object_bits=10, thorough_only=thor, defs=d, bound='%d bytes of text, all contents' % ln,
        what={'url': 'splitting a URL', 'port': 'port of a URL', 'copy': 'private copy of a string'}.get(name.split('_')[0], 'socket address')), **kw))
for n in list(range(1, 13)) + [14, 16, 20]:
    u('url', 'h_url', n, n not in (1, 3, 4, 6, 8, 9, 10, 11, 12))
for n in (0, 1, 3, 5, 6, 7):
    for sl in ((0, 3, 4, 5, 6) if n == 0 else (4,)):
        u('port_%d' % sl, 'h_port', n, False, defs=['SL=%d' % sl])
for n in (0, 1, 2, 4, 6, 8, 12):
    u('v4', 'h_sock', n, n in (12,))
for n in (1, 2, 3, 4, 6, 9, 12):
    u('v6', 'h_sock', n, n in (12,), defs=['SIX'])
for n in (5, 6, 20, 111, 112, 113, 120):
    u('unix', 'h_sock', n, n in (20, 120), defs=['UNIX'])
for n in (0, 1, 9):
    u('copy', 'h_copy', n)
