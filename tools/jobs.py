"""Which proof obligations decide which property."""
import copy
import roles, vlib
from vlib import Job

FCS = (1, 2, 3, 4, 5, 6, 15, 16)
ACC = ['get_coil_din_state', 'get_register_state', 'set_coil_state', 'set_register_value']
SLAVE = ['modbus_slave.c', 'modbus_slave_PDU.c', 'modbus_slave_data.c', 'modbus_slave_RTU.c']
SROLE = {1: (roles.RB, 'get_coil_din_state'), 2: (roles.RB, 'get_coil_din_state'), 3: (roles.RR, 'get_register_state'), 4: (roles.RR, 'get_register_state'),
         15: (roles.WB, 'set_coil_state'), 16: (roles.WR, 'set_register_value')}
CB = {1: 'modbus_master_coil_read', 2: 'modbus_master_disin_read', 3: 'modbus_master_hreg_read', 4: 'modbus_master_inreg_read'}
LEAF = [None, 'get_coil_din_state', 'get_register_state', 'set_coil_state', 'set_register_value', 'register_app_data_to_modbus_slave_coils_table',
        'register_app_data_to_modbus_slave_din_table', 'register_app_data_to_modbus_slave_hreg_table', 'register_app_data_to_modbus_slave_inreg_table',
        'read_u16_from_buf', 'write_u16_to_buf', 'get_coil_din_byte_count']
REQF = {1: 'modbus_master_read_coils', 2: 'modbus_master_read_discrete_inputs', 3: 'modbus_master_read_holding_reg', 4: 'modbus_master_read_input_reg',
        5: 'modbus_master_write_single_coil', 6: 'modbus_master_write_single_reg', 15: 'modbus_master_write_multiple_coils', 16: 'modbus_master_write_multiple_reg'}

def crc(mode, p, checks=False):
    f = {1: ['calculate_CRC'], 2: ['modbus_RTU_send', 'calculate_CRC'], 3: ['modbus_RTU_recv', 'calculate_CRC']}[mode]
    return Job('crc%d' % mode + ('s' if checks else ''), 'crc.c', defs=['MODE=%d' % mode, 'PROP=%d' % p], skip=['modbus_master.c', 'modbus_slave.c'],
               annotate=dict(src='modbus_crc.c', specs=[dict(role='CRC', calls=None, entry='calculate_CRC', render=roles.CRC)]), unwind=260, checks=checks, functions=f,
               fallback=[dict(annotate=None, defs=['MODE=%d' % mode, 'PROP=%d' % p, 'NMAX=16'], unwind=20, bounded='strings of at most 16 bytes')])

def lemma():
    return Job('lemma_burst', 'lemma_burst.c', defs=['PROP=3'], skip=[f.split('/')[-1] for f in vlib.sources()], loops=True, unwind=260, repo=False)

def leaf(i, p):
    return Job('leaf_' + LEAF[i], 'leaf.c', defs=['F=%d' % i], enforce=LEAF[i], unwind=10, unit=False, functions=[LEAF[i]])

def spdu(fc, p, checks=False, unit=True):
    specs = {c: dict(role=r.__name__, calls=[c], render=r) for f, (r, c) in SROLE.items() if fc in (0, f)}
    ann = dict(src='modbus_slave_PDU.c', specs=list(specs.values())) if specs else None
    return Job('slave_fc%d%s%s' % (fc, '' if unit else '_default_config', '_mem' if checks else ''), 'slave_pdu.c', defs=['FC=%d' % fc, 'PROP=%d' % p],
               skip=['modbus_master.c', 'modbus_slave.c'], replace={f: 'stub_' + f for f in ACC}, annotate=ann, unwind=260, unit=unit, checks=checks,
               functions=['parse_master_request_and_prepare_resp'],
               fallback=[dict(annotate=None, unit=False, unwind=130)] if ann else [])

def smgr(op, p, checks=False):
    return Job('slave_manager_op%d' % op + ('_mem' if checks else ''), 'slave_mgr.c', defs=['OP=%d' % op, 'PROP=%d' % p],
               replace={f: 'stub_' + f for f in ('modbus_RTU_recv', 'modbus_RTU_send', 'parse_master_request_and_prepare_resp')}, nondet_static=True, unwind=20,
               skip=['modbus_master.c', 'modbus_master_PDU.c'], checks=checks, functions=['modbus_slave_init', 'check_modbus_request', 'check_master_request_len'])

def queue(f):
    return Job('queue%d' % f, 'queue.c', defs=['F=%d' % f, 'PROP=15'], skip=SLAVE + ['modbus_master.c', 'modbus_master_PDU.c'], unwind=8, checks=True, nondet_static=True,
               functions=[[None, 'modbus_queue_init', 'modbus_queue_push', 'modbus_queue_pop'][f]])

def mmgr(op, p, checks=False):
    out = []
    for st in (range(5) if op == 1 else (3, 4) if op == 6 else [None]):
        out.append(Job('master_manager_op%d' % op + ('_state%d' % st if st is not None else '') + ('_mem' if checks else ''), 'master_mgr.c',
                       defs=['OP=%d' % op, 'PROP=%d' % p] + (['ST=%d' % st] if st is not None else []),
                       replace={f: 'stub_' + f for f in ('modbus_RTU_recv', 'modbus_master_read_slave_resp')}, nondet_static=['free_q', 'tx_rx_q'], unwind=9,
                       skip=SLAVE, group='poll%d' % op + ('_mem' if checks else '') if st is not None else None, solver='minisat2', checks=checks,
                       functions=['modbus_master_init', 'update_modbus_master_manager', 'update_modbus_master_timout_timer']))
    return out

def mreq(fc, p, checks=False, mi=3):
    ann = None
    if fc in (15, 16):
        ann = dict(src='modbus_master_PDU.c', specs=[dict(role='EB', entry='modbus_master_write_multiple_coils_req', render=roles.EB),
                                                      dict(role='ER', entry='modbus_master_write_multiple_reg_req', render=roles.ER)])
    return Job('master_request_fc%d' % fc + ('_mem' if checks else '') + ('' if mi == 3 else '_msg%d' % mi), 'master_req.c', defs=['FC=%d' % fc, 'PROP=%d' % p, 'MI=%d' % mi],
               skip=SLAVE, replace={f: 'stub_' + f for f in ('modbus_queue_push', 'modbus_queue_pop', 'calculate_CRC')}, annotate=ann,
               nondet_static=['free_q', 'tx_rx_q'], unwind=260 if ann else 12, solver='minisat2', checks=checks, functions=[REQF[fc], 'modbus_RTU_send'],
               fallback=[dict(annotate=None, unwind=130 if fc == 16 else 70, **({} if fc == 16 else dict(defs=['FC=%d' % fc, 'PROP=%d' % p, 'MI=%d' % mi, 'QMAX=64'], bounded='at most 64 coils')))] if ann else [])

def mresp(fc, p, checks=False):
    ann = None
    if fc in CB:
        ann = dict(src='modbus_master_PDU.c', specs=[dict(role='DB' if f < 3 else 'DR', calls=[CB[f]], render=(roles.DB if f < 3 else roles.DR)) for f in CB])
    return Job('master_response_fc%d' % fc + ('_mem' if checks else ''), 'master_resp.c', defs=['FC=%d' % fc, 'PROP=%d' % p], skip=SLAVE + ['modbus_master.c'], annotate=ann,
               nondet_static=True, unwind=20, solver='minisat2', checks=checks, functions=['modbus_master_read_slave_resp'],
               fallback=[dict(annotate=None, unwind=130, defs=['FC=%d' % fc, 'PROP=%d' % p, 'QMAX=%d' % (125 if fc > 2 else 40)], **({} if fc > 2 else {'bounded': 'at most 40 coils or inputs'}))] if ann else [])

def rt(fc):
    return Job('composition_fc%d' % fc, 'round_trip.c', defs=['FC=%d' % fc, 'PROP=23'], skip=[f.split('/')[-1] for f in vlib.sources()], unwind=5, repo=False)

def both(fc, p):
    return [spdu(fc, p), spdu(fc, p, unit=False)]

def jobs(pid, tier='quick'):
    p = int(pid[1:])
    o = []
    if p == 1:
        o = [crc(1, 1), crc(1, 1, True)]
    elif p == 2:
        o = [crc(1, 1), crc(2, 2), crc(3, 2), lemma(), smgr(1, 2)] + [mreq(f, 2) for f in FCS]
    elif p == 3:
        o = [crc(1, 1), crc(3, 3), lemma()] + [smgr(i, 3) for i in (1, 2)] + mmgr(1, 18)
    elif p == 4:
        o = both(1, 4) + both(2, 4) + [leaf(1, 4), leaf(9, 4)]
    elif p == 5:
        o = both(3, 5) + both(4, 5) + [leaf(2, 5), leaf(9, 5), leaf(10, 5)]
    elif p == 6:
        o = both(5, 6) + both(15, 6) + [leaf(3, 6), leaf(9, 6), leaf(10, 6)]
    elif p == 7:
        o = both(6, 7) + both(16, 7) + [leaf(4, 7), leaf(9, 7), leaf(10, 7)]
    elif p == 8:
        o = [j for f in (0,) + FCS for j in both(f, 8)] + [leaf(i, 8) for i in (1, 2, 3, 4)]
    elif p == 9:
        o = [j for f in (0,) + FCS for j in (spdu(f, 9, True), spdu(f, 9, True, unit=False))] + [smgr(i, 9, True) for i in (0, 1, 2)] + [leaf(i, 9) for i in (1, 2, 3, 4)] + [crc(i, i, True) for i in (1, 2, 3)]
    elif p == 10:
        o = [smgr(i, 10) for i in (0, 1, 2)] + [crc(1, 1), crc(3, 3)]
    elif p == 11:
        o = [smgr(i, 11) for i in range(5)]
    elif p == 12:
        o = [leaf(i, 12) for i in (5, 6, 7, 8, 1, 2, 3, 4)]
    elif p == 13:
        o = [mreq(f, 13) for f in FCS] + [leaf(10, 13), leaf(11, 13)]
    elif p == 14:
        o = [mreq(f, 14) for f in FCS] + [queue(i) for i in (1, 2, 3)]
    elif p == 15:
        o = [queue(i) for i in (1, 2, 3)] + [j for i in (0, 1, 2, 3, 6) for j in mmgr(i, 15)] + [mreq(f, 15) for f in FCS]
    elif p == 16:
        o = [mresp(f, 16) for f in FCS] + [j for i in range(4) for j in mmgr(i, 16)] + [leaf(9, 16)]
    elif p == 17:
        o = [mresp(f, 17) for f in FCS] + [leaf(9, 17)]
    elif p == 18:
        o = [mresp(f, 18) for f in FCS] + [j for i in range(4) for j in mmgr(i, 18)] + [crc(1, 1), crc(3, 3)]
    elif p == 19:
        o = [mresp(f, 19) for f in FCS] + [j for i in (0, 1, 2, 3, 6) for j in mmgr(i, 19)]
    elif p == 20:
        o = [j for i in (0, 1, 2, 3, 5, 6) for j in mmgr(i, 20)]
    elif p == 21:
        o = [j for i in (0, 1, 2, 3, 4, 6) for j in mmgr(i, 21)] + [mreq(f, 21) for f in FCS]
    elif p == 22:
        o = [mresp(f, 22, True) for f in FCS] + [j for i in range(4) for j in mmgr(i, 22, True)] + [mreq(f, 22, True) for f in FCS] + [queue(i) for i in (1, 2, 3)] + [crc(i, i, True) for i in (1, 2, 3)]
    elif p == 23:
        o = [rt(f) for f in FCS] + [mreq(f, 23) for f in FCS] + [spdu(f, 23) for f in FCS] + [mresp(f, 23) for f in FCS] + [leaf(i, 23) for i in (1, 2, 3, 4)]
    if tier == 'thorough':
        b = []
        for j in o:
            if j.repo and not j.m16:
                k = copy.copy(j)
                k.name, k.m32, k.fallback = j.name + '_32bit', True, ()
                b.append(k)
        o += b
        if p == 9:
            o += [Job('slave_fc%d_16bit' % f, 'slave_16bit.c', unit=False, defs=['FC=%d' % f], unwind=130, checks=True, m16=('modbus_slave_PDU.c', 'buf_rw.c', 'modbus_PDU_common.c'),
                      functions=['parse_master_request_and_prepare_resp', 'check_read_req_data_correcntess']) for f in FCS]
        if p in (2, 13, 14, 15, 21, 22, 23):
            o += [mreq(f, p, p == 22, mi) for f in FCS for mi in (0, 1, 2, 4)]
    return o

PROPS = ['C%02d' % i for i in range(1, 24)]
