"""Recognisers of the documented formats behind the predefined patterns, written without regular expressions
on the same lines. Each answers True (of the format), False (outside it) or None (the documentation is silent)."""
import ipaddress

DIG = '0123456789'
LOW = 'abcdefghijklmnopqrstuvwxyz'
UPP = LOW.upper()
ALPHA = LOW + UPP
ALNUM = ALPHA + DIG
HEXD = DIG + 'abcdefABCDEF'


def every(s, chars):
    return all(c in chars for c in s)


def ipv4(s):
    p = s.split('.')
    if len(p) != 4 or not all(p) or not every(''.join(p), DIG):
        return False
    if any(len(x) > 3 or int(x) > 255 for x in p):
        return False
    if any(len(x) > 1 and x[0] == '0' for x in p):
        return None
    return True


def ipv6(s):
    if '%' in s:
        return None
    if '.' in s:
        i = s.rfind(':')
        if i < 0:
            return False
        v4 = ipv4(s[i + 1:])
        if v4 is not True:
            return v4
        try:
            ipaddress.IPv6Address(s)
        except ValueError:
            return False
        return True if s[:i + 1] in ('::', '::ffff:') else None
    if not every(s, HEXD + ':'):
        return False
    try:
        ipaddress.IPv6Address(s)
        return True
    except ValueError:
        return False


def label(s):
    return 1 <= len(s) <= 63 and every(s, ALNUM + '-') and s[0] != '-' and s[-1] != '-'


def domain(s):
    if not s or len(s) > 253:
        return False
    p = s.split('.')
    if p[-1] == '' and len(p) > 2:
        return None
    if len(p) < 2 or not all(label(x) for x in p[:-1]):
        return False
    t = p[-1]
    if not t or not every(t, ALNUM + '-'):
        return False
    if len(t) < 2:
        return False
    if not every(t, ALPHA):
        return None if t.startswith('xn--') else False
    return True if len(t) <= 63 else None


SPACE = ' \t\n\v\f\r'


def url(s, schemes=None):
    i = s.find('://')
    if i < 0 or any(c in SPACE for c in s):
        return False
    sch, rest = s[:i], s[i + 3:]
    if not sch or sch[0] not in ALPHA or not every(sch, ALNUM + '+.-'):
        return False
    if schemes and sch not in schemes:
        return None if sch.lower() in schemes else False
    if not rest:
        return False
    if rest[0] in '/$.?#' or any(not 32 < ord(c) < 127 for c in rest):
        return None
    return True


def http(s):
    return url(s, ('http', 'https'))


def port(s):
    if not s or not every(s, DIG):
        return False
    n = int(s) if len(s) < 4000 else 10**9
    if not 1 <= n <= 65535:
        return False
    return None if s[0] == '0' else True


def email(s):
    if s.count('@') != 1:
        return False if not s.startswith('"') else None
    a, d = s.split('@')
    if not a or not every(a, ALNUM + '._%+-'):
        return False if not a or any(c in SPACE or c in '()<>,;:[]\\' for c in a) else None
    p = d.split('.')
    if len(p) < 2 or not every(d, ALNUM + '.-'):
        return False
    if len(p[-1]) < 2 or not every(p[-1], ALPHA):
        return False if not p[-1].startswith('xn--') else None
    if not all(label(x) for x in p[:-1]) or a[0] == '.' or a[-1] == '.' or '..' in a:
        return None
    return True


ATEXT = ALNUM + "!#$%&'*+/=?^_`{|}~-"


def email_strict(s):
    if s.count('@') != 1:
        return False if '"' not in s else None
    a, d = s.split('@')
    if not a or not d:
        return False
    if not every(a, ATEXT + '.'):
        return False if '"' not in a else None
    if not all(label(x) for x in d.split('.')):
        return False if not d.startswith('[') else None
    if a[0] == '.' or a[-1] == '.' or '..' in a:
        return None
    return True


def iso_date(s):
    if len(s) != 10 or s[4] != '-' or s[7] != '-' or not every(s[:4] + s[5:7] + s[8:], DIG):
        return False
    m, d = int(s[5:7]), int(s[8:])
    if not 1 <= m <= 12 or not 1 <= d <= 31:
        return False
    if d > (29 if m == 2 else 30 if m in (4, 6, 9, 11) else 31):
        return None
    y = int(s[:4])
    if m == 2 and d == 29 and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
        return None
    return True


def iso_time(s):
    if len(s) < 11 or s[10] != 'T':
        return False
    d = iso_date(s[:10])
    if d is False:
        return False
    t = s[11:]
    if len(t) > 8 and (t[8] in 'Z+-.,') and iso_time(s[:19]) is not False:
        return None if all(c in DIG + 'Z+-:.,' for c in t) else False
    if len(t) != 8 or t[2] != ':' or t[5] != ':' or not every(t[:2] + t[3:5] + t[6:], DIG):
        return False
    if int(t[6:]) == 60:
        return None
    if int(t[:2]) > 23 or int(t[3:5]) > 59 or int(t[6:]) > 59:
        return None if t == '24:00:00' else False
    return d


def user(s):
    return 3 <= len(s) <= 20 and every(s, ALNUM + '_-')


def passwd(s):
    if len(s) < 8 or not any(c in ALPHA for c in s) or not any(c in DIG for c in s):
        return False
    if '\n' in s:
        return False
    return True if every(s, ALNUM) else None


def uuid(s):
    p = s.split('-')
    return [len(x) for x in p] == [8, 4, 4, 4, 12] and every(''.join(p), HEXD) and p[2][0] == '4' and p[3][0] in '89abAB'


def unix_path(s):
    if not s.startswith('/'):
        return False
    if any(not 32 < ord(c) < 127 for c in s) or '//' in s:
        return None
    return True


def filename(s):
    if '.' not in s or '/' in s or s.endswith('.') or s.startswith('.') and s.count('.') == 1:
        return False
    if s.endswith('\n'):
        return False
    a, _, e = s.rpartition('.')
    if not every(e, ALNUM + '_-'):
        return False if any(c in SPACE for c in e) else None
    if not every(e, ALPHA) or len(e) > 5 or not every(a, ALNUM + '_-,'):
        return None
    return True


def ident(s, numeric_strict):
    if not s or not every(s, ALNUM + '-'):
        return False
    return not (numeric_strict and every(s, DIG) and len(s) > 1 and s[0] == '0')


def semver(s):
    core, plus, b = s.partition('+')
    if plus and not all(ident(x, False) for x in b.split('.')):
        return False
    core, dash, pre = core.partition('-')
    if dash and not all(ident(x, True) for x in pre.split('.')):
        return False
    p = core.split('.')
    return len(p) == 3 and all(x and every(x, DIG) and (x == '0' or x[0] != '0') for x in p)


def pos_int(s):
    if s[:1] == '+':
        return None if s[1:] and every(s[1:], DIG) else False
    if not s or not every(s, DIG) or not s.strip('0'):
        return False
    return None if s[0] == '0' else True


def neg_int(s):
    if s[:1] != '-' or not s[1:] or not every(s[1:], DIG) or not s[1:].strip('0'):
        return False
    return None if s[1] == '0' else True


def dec(s):
    t = s[1:] if s[:1] in ('-', '+') else s
    a, dot, b = t.partition('.')
    if not every(a + b, DIG):
        return False
    if not a and not b:
        return False
    if dot and not (a and b):
        return None
    return True


def hexa(s):
    if s[:2] == '0X':
        return None if s[2:] and every(s[2:], HEXD) else False
    return s[:2] == '0x' and len(s) > 2 and every(s[2:], HEXD)


# --- members
def pk(r, chars, a, b):
    return ''.join(r.choice(chars) for _ in range(r.randint(a, b)))


def g_v4(r):
    return '.'.join(str(r.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, r.randint(0, 255)])) for _ in range(4))


def g_v6(r):
    if r.random() < 0.15:
        return r.choice(['::', '::ffff:']) + g_v4(r)
    n = 8 if r.random() < 0.4 else r.randint(0, 7)
    g = [pk(r, HEXD, 1, 4) for _ in range(n)]
    if n == 8:
        return ':'.join(g)
    k = r.randint(0, n)
    return ':'.join(g[:k]) + '::' + ':'.join(g[k:])


def g_label(r):
    n = r.choice([1, 2, 3, 5, 8, 62, 63, r.randint(1, 63)])
    if n == 1:
        return pk(r, ALNUM, 1, 1)
    return pk(r, ALNUM, 1, 1) + pk(r, ALNUM + '-', n - 2, n - 2) + pk(r, ALNUM, 1, 1)


def g_domain(r):
    d = '.'.join(g_label(r) for _ in range(r.choice([1, 1, 2, 3, 5]))) + '.' + pk(r, ALPHA, 2, r.choice([2, 3, 6]))
    if r.random() < 0.15:
        # right at the length limit
        want = r.choice([252, 253, 254])
        d = ''
        while len(d) < want - 70:
            d += pk(r, ALNUM, 60, 63) + '.'
        tail = r.choice(['com', 'org', 'io'])
        rest = want - len(d) - len(tail) - 1
        while rest > 63:
            d += pk(r, ALNUM, 30, 30) + '.'
            rest -= 31
        d += pk(r, ALNUM, max(1, rest), max(1, rest)) + '.' + tail
    return d


def g_url(r):
    sch = r.choice(['http', 'https', 'ftp', 'ssh', 'git+ssh', 'x', 'a.b-c', 'HTTP', 'file', 'h2'])
    return sch + '://' + g_host(r)


def g_host(r):
    h = r.choice(['a', 'localhost', 'example.com', '127.0.0.1', 'user:pw@host', '[::1]', g_label(r)])
    if r.random() < 0.4:
        h += ':%d' % r.randint(1, 65535)
    if r.random() < 0.6:
        h += '/' + pk(r, ALNUM + "/-_.~%!$&'()*+,;=:@?#", 0, 20)
    return h


def g_http(r):
    return r.choice(['http', 'https']) + '://' + g_host(r)


def g_port(r):
    return str(r.choice([1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 49999, 50000, 59999, 60000, 64999, 65000, 65499, 65500, 65529, 65530,
                         65535, 65536, 65540, 65600, 66000, 70000, 99999, 0, r.randint(1, 65535)]))


def g_email(r):
    return '.'.join(pk(r, ALNUM + '_%+-', 1, 8) for _ in range(r.randint(1, 3))) + '@' + '.'.join(
        g_label(r) for _ in range(r.randint(1, 2))) + '.' + pk(r, ALPHA, 2, 6)


def g_strict(r):
    return '.'.join(pk(r, ATEXT, 1, 8) for _ in range(r.randint(1, 3))) + '@' + '.'.join(g_label(r) for _ in range(r.randint(1, 4)))


def g_date(r):
    return '%04d-%02d-%02d' % (r.randint(0, 9999), r.choice([0, 1, 9, 10, 12, 13, 19, r.randint(1, 12)]),
                               r.choice([0, 1, 9, 10, 19, 20, 28, 29, 30, 31, 32, 39, r.randint(1, 28)]))


def g_time(r):
    return '%04d-%02d-%02dT%02d:%02d:%02d' % (r.randint(0, 9999), r.randint(1, 12), r.randint(1, 28),
                                              r.choice([0, 9, 10, 19, 20, 23, 24, 25, r.randint(0, 23)]),
                                              r.choice([0, 9, 10, 59, 60, r.randint(0, 59)]), r.choice([0, 9, 59, 60, 61, r.randint(0, 59)]))


def g_user(r):
    n = r.choice([0, 1, 2, 3, 4, 10, 19, 20, 21, 22])
    return pk(r, ALNUM + '_-', n, n)


def g_pw(r):
    n = r.choice([6, 7, 8, 9, 12, 64, 200])
    s = pk(r, ALNUM, n, n)
    return s if r.random() < 0.7 else pk(r, r.choice([ALPHA, DIG]), n, n)


def g_uuid(r):
    return '-'.join([pk(r, HEXD, 8, 8), pk(r, HEXD, 4, 4), r.choice('444441235') + pk(r, HEXD, 3, 3), r.choice('89abAB89ab7cfC0') + pk(r, HEXD, 3, 3),
                     pk(r, HEXD, 12, 12)])


def g_path(r):
    s = '/' + '/'.join(pk(r, ALNUM + '._-+~,@:', 1, 12) for _ in range(r.randint(0, 6)))
    return s + '/' if r.random() < 0.2 and len(s) > 1 else s


def g_file(r):
    return pk(r, ALNUM + '_-,', 1, 12) + '.' + pk(r, ALPHA, 1, 5)


def g_sem(r):
    s = '.'.join(r.choice(['0', '1', '10', '999999999999999999', str(r.randint(0, 99))]) for _ in range(3))
    if r.random() < 0.5:
        s += '-' + '.'.join(r.choice(['alpha', '0', '1', '10', 'rc1', 'a-b', '-', '0a', '00', '01', pk(r, ALNUM + '-', 1, 5)]) for _ in range(r.randint(1, 3)))
    if r.random() < 0.4:
        s += '+' + '.'.join(r.choice(['001', 'build', 'x-1', pk(r, ALNUM + '-', 1, 5)]) for _ in range(r.randint(1, 3)))
    return s


def g_pos(r):
    return r.choice([str(r.randint(0, 10**r.randint(1, 30))), '0', '1', '9', '10'])


def g_neg(r):
    return '-' + g_pos(r)


def g_dec(r):
    return r.choice(['', '', '-', '+']) + pk(r, DIG, 1, 12) + (('.' + pk(r, DIG, 1, 12)) if r.random() < 0.7 else '')


def g_hex(r):
    return '0x' + pk(r, HEXD, 1, r.choice([1, 2, 8, 40]))


FORMATS = {
    'IPV4': (ipv4, g_v4, 'IPV4'), 'IPV6': (ipv6, g_v6, 'IPV6'), 'DOMAIN': (domain, g_domain, 'DOMAIN'), 'URL': (url, g_url, 'URL'),
    'HTTP': (http, g_http, 'HTTP'), 'PORT': (port, g_port, 'PORT'), 'EMAIL': (email, g_email, 'EMAIL'),
    'EMAIL_STRICT': (email_strict, g_strict, 'EMAIL_STRICT'), 'ISO_DATE': (iso_date, g_date, 'ISO_DATE'),
    'ISOTIME': (iso_time, g_time, 'ISO_TIME'), 'USER': (user, g_user, 'USERNAME'), 'PASSWD': (passwd, g_pw, 'PASSWORD'),
    'UUID': (uuid, g_uuid, 'UUID'), 'UNIX_PATH': (unix_path, g_path, 'UNIX_PATH'), 'FILENAME': (filename, g_file, 'FILENAME'),
    'SEMVER': (semver, g_sem, 'SEMVER'), 'POS_INT': (pos_int, g_pos, 'POS_INT'), 'NEG_INT': (neg_int, g_neg, 'NEG_INT'),
    'FLOAT': (dec, g_dec, 'FLOAT'), 'HEX': (hexa, g_hex, 'HEX')}

SPECIAL = '\n\r\t /.:-@+_%~0123456789abcdefgzABFGZxXTtZ#?&=,;!"\'\\\x01\x7f\x80\xc3\xff'


def mutate(r, s):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(9)
        i = r.randrange(len(s) + 1)
        if k == 0:
            s = s[:i] + r.choice(SPECIAL) + s[i:]
        elif k == 1 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i + 1:]
        elif k == 2 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + r.choice(SPECIAL) + s[i + 1:]
        elif k == 3:
            s += r.choice(['\n', ' ', '\r\n', 'x', '0', '.', '/', '-', ':', '.1', ':1', '@b', '\n\n', s])
        elif k == 4:
            s = r.choice(['\n', ' ', 'x', '0', '.', '/', '-', ':', '1.', '1:', 'a@', '+']) + s
        elif k == 5:
            s = s.replace('.', r.choice(['x', '..', '', ':']), 1)
        elif k == 6:
            j = r.randrange(len(s) + 1)
            s = s[:min(i, j)] + s[max(i, j):]
        elif k == 7:
            j = r.randrange(len(s) + 1)
            s = s[:max(i, j)] + s[min(i, j):]
        else:
            s = s.encode('latin-1').swapcase().decode('latin-1')
    return s
