"""Loop contracts per role.  A role knows what the loop does (which contract functions it reaches).  Its invariant is
phrased over the ghost state of the harness (what the loop has done so far: g_n accesses) plus one generic line per local
variable that the loop steps by a constant: it has its value at loop entry plus the step times the finished iterations."""

def typ(v):
    return v['type'].get('desugaredQualType', v['type']['qualType']).replace('const ', '').replace('volatile ', '')

def is_ptr(v):
    return '*' in typ(v)

def statuses(d):
    """scalar locals that carry a return status"""
    return [v['name'] for v in d['assigned'] if v['type']['qualType'] in ('modbus_ret_t',)]

def base(d, extra_assigns):
    return '__CPROVER_assigns(%s) ' % ', '.join([v['name'] for v in d['assigned']] + extra_assigns)

def inv(*cs):
    return ' '.join('__CPROVER_loop_invariant(%s)' % c for c in cs if c) + ' '

def stepped(d, n, skip=None):
    """what n finished iterations have done to the variables the loop steps"""
    out = []
    for v, s in d['steps']:
        x = v['name']
        if x == skip:
            continue
        e = '__CPROVER_loop_entry(%s)' % x
        if is_ptr(v):
            out.append('__CPROVER_same_object(%s, %s) && __CPROVER_POINTER_OFFSET(%s) == (__CPROVER_size_t)(__CPROVER_POINTER_OFFSET(%s) + (%d) * sizeof(*%s) * (%s))' % (x, e, x, e, s, x, n))
        else:
            out.append('%s == (%s)(%s + (%d) * (%s))' % (x, typ(v), e, s, n))
    return out

def count(d):
    """number of finished iterations, from the first stepped variable (the loop condition first)"""
    for v, s in d['steps']:
        x = v['name']
        y = '__CPROVER_loop_entry(%s)' % x
        size, more = str(abs(s)), ''
        f, t = (y, x) if s > 0 else (x, y)
        if is_ptr(v):
            more = '__CPROVER_same_object(%s, %s)' % (x, y)
            f, t = ['(__CPROVER_size_t)__CPROVER_POINTER_OFFSET(%s)' % p for p in (f, t)]
            size += ' * sizeof(*%s)' % x
            e = '(%s - %s)' % (t, f)
        else:
            e = '((%s)(%s - %s))' % (typ(v), t, f)
        if size == '1':
            return x, e, more
        return x, '(%s / (%s))' % (e, size), ' && '.join(([more] if more else []) + ['%s %% (%s) == 0' % (e, size)])
    return None

def below(d, n, total):
    return '(%s) %s %s' % (n, '<' if d['dowhile'] else '<=', total)

RGHOST = ['g_n', 'g_err', 'g_bad', 'g_any_write', 'g_wr', 'g_wv']

def errors(d):
    """a loop whose condition looks at a status stays at its head after an error; others leave from the middle"""
    if d['dowhile']:
        return None                 # its condition is looked at before the head is reached again
    st = [v['name'] for v in d['assigned'] if v['type']['qualType'] == 'modbus_ret_t' and v['id'] in d['cond']]
    return st[0] if st else None

def reads(d, values, *cs):
    e = errors(d)
    st = statuses(d)
    return base(d, RGHOST + ['__CPROVER_object_whole(g_resp)', 'g_msg.resp.len']) + inv(
        below(d, 'g_n', 'g_Q') + ' && !g_bad && !g_any_write',
        'g_err == (%s == -1)' % e if e else '!g_err',
        *stepped(d, 'g_n'),
        'g_resp[0] == __CPROVER_loop_entry(g_resp[0]) && g_resp[1] == __CPROVER_loop_entry(g_resp[1]) && g_resp[2] == __CPROVER_loop_entry(g_resp[2])',
        'g_msg.resp.len == __CPROVER_loop_entry(g_msg.resp.len)',
        *['g_err || (%s)' % c for c in cs], *['g_err || (%s)' % (values % (n, n)) for n in st])

# slave, read bits (FC 1 and 2): resp.data gets one bit per object
def RB(d):
    return reads(d, '%s == 0 || %s == 1', '!(g_k < 8 * GBYTES(g_Q)) || GBIT(g_resp + 3, g_k) == (g_k < g_n ? g_VK : 0)', '!(g_k < g_n) || g_VK != -1')

# slave, read registers (FC 3 and 4)
def RR(d):
    return reads(d, '%s >= 0 && %s <= 0xFFFF', '!(g_k < g_n) || (g_VK != -1 && g_resp[3 + 2 * g_k] * 256 + g_resp[4 + 2 * g_k] == g_VK)')

def writes(d, value):
    e = errors(d)
    return base(d, RGHOST) + inv(
        below(d, 'g_n', 'g_Q') + ' && !g_bad',
        'g_err == (%s == -1)' % e if e else '!g_err',
        *stepped(d, 'g_n'),
        '!(g_k < g_n) || (g_VK == -1 ? g_err && g_wr == 0 : g_wr == 1 && g_wv == %s)' % value, 'g_k < g_n || g_wr == 0',
        *['(%s == 0 || g_err)' % n for n in statuses(d)])

# slave, write bits (FC 15)
def WB(d):
    return writes(d, 'GBIT(g_req + 7, g_k)')

# slave, write registers (FC 16)
def WR(d):
    return writes(d, '(g_req[7 + 2 * g_k] * 256 + g_req[8 + 2 * g_k])')

# CRC: register after i bytes is g_S[i]
def CRC(d):
    c = count(d)
    if c is None:
        return None
    x, i, more = c
    stepv = [v['name'] for v, s in d['steps']]
    reg = [v['name'] for v in d['assigned'] if not is_ptr(v) and v['name'] not in stepv and v['type']['qualType'] in
           ('uint16_t', 'modbus_CRC_t', 'unsigned short', 'uint32_t', 'unsigned int', 'int', 'uint_fast16_t')]
    if len(reg) != 1:
        return None
    return base(d, []) + inv(more, below(d, i, 'g_N'), '%s == g_S[%s]' % (reg[0], i), *stepped(d, i, x))

# master, encode coils (FC 15)
def EB(d):
    c = count(d)
    if c is None:
        return None
    x, i, more = c
    return base(d, ['__CPROVER_object_upto(g_mreq + 7, 246)']) + inv(
        more, below(d, i, 'g_Q'), '!(g_k < 8 * GBYTES(g_Q)) || GBIT(g_mreq + 7, g_k) == (g_k < (%s) ? g_bits[g_k] : 0)' % i, *stepped(d, i, x))

# master, encode registers (FC 16)
def ER(d):
    c = count(d)
    if c is None:
        return None
    x, i, more = c
    return base(d, ['__CPROVER_object_upto(g_mreq + 7, 246)']) + inv(
        more, below(d, i, 'g_Q'), '!(g_k < (%s)) || g_mreq[7 + 2 * g_k] * 256 + g_mreq[8 + 2 * g_k] == g_regs[g_k]' % i, *stepped(d, i, x))

DGHOST = ['g_n', 'g_hit', 'g_hv', 'g_bad']

def delivers(d, value):
    return base(d, DGHOST) + inv(below(d, 'g_n', 'g_Q') + ' && !g_bad', *stepped(d, 'g_n'), 'g_hit == (g_k < g_n)', 'g_k >= g_n || g_hv == %s' % value)

# master, deliver bits (FC 1 and 2)
def DB(d):
    return delivers(d, 'GBIT(g_resp + 3, g_k)')

# master, deliver registers (FC 3 and 4)
def DR(d):
    return delivers(d, 'g_resp[3 + 2 * g_k] * 256 + g_resp[4 + 2 * g_k]')
