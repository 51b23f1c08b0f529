// Search for a failing history on the real code, used when a proof obligation failed: random and directed histories against an
// independent model (spec/mb_spec.h).  usage: sim PROPERTY SEED SECONDS DICTFILE [HISTORY]   exit 1: "FOUND ..." with the history
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
extern "C" {
#include "modbus_type.h"
#include "modbus_driver_interface.h"
#include "modbus_master_data_interface.h"
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_slave_data.h"
#include "modbus_crc.h"
#include "modbus_RTU.h"
#include "mb_spec.h"
}
typedef std::vector<uint8_t> Bytes;
static int P;
static std::string hist;
static const char *current = "";
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 11; }
static int R(int n) { return (int)(rnd() % (uint64_t)n); }
static bool one_in(int n) { return R(n) == 0; }
static std::vector<int> dict = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 122, 123, 124, 125, 126, 127, 128, 129, 246, 247, 248, 255, 256, 257,
    511, 512, 1023, 1024, 1967, 1968, 1969, 1999, 2000, 2001, 2002, 2039, 2040, 2041, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF};
static std::vector<Bytes> dict_frames;
static int num()
{
    switch (R(5))
    {
    case 0: return R(65536);
    case 1: return R(256);
    case 2: return (dict[R(dict.size())] + R(3) - 1) & 0xFFFF;
    default: return dict[R(dict.size())] & 0xFFFF;
    }
}
static void L(const char *f, ...)
{
    char b[1400];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    hist += b;
    hist += '\n';
}
static std::string hex(const Bytes &b)
{
    std::string s;
    char t[4];
    for (uint8_t x : b)
        snprintf(t, 4, "%02x", x), s += t;
    return s;
}
struct Diverged {};
// the observed behaviour contradicts the listed properties
static void fail(std::initializer_list<int> props, const char *f, ...)
{
    char b[1400];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    for (int p : props)
        if (p == P)
        {
            printf("FOUND C%02d: %s\nhistory (%s):\n%sthen: %s\n", P, b, current, hist.c_str(), b);
            fflush(stdout);
            _exit(1);
        }
    throw Diverged();
}
static Bytes framed(Bytes b)
{
    uint16_t c = spec_crc(b.data(), b.size());
    b.push_back(c & 255);
    b.push_back(c >> 8);
    return b;
}
static bool crc_ok(const Bytes &b) { return b.size() >= 2 && spec_crc(b.data(), b.size() - 2) == (b[b.size() - 2] | b[b.size() - 1] << 8); }

// ---------------------------------------------------------------- drivers
struct Driver
{
    driver_subscr_cb_t c15, c35, ctx, cfe;
    modbus_req_resp_t *rx;
    std::vector<Bytes> sent;
    bool pend, tx_in_send;
    int n_init;
    void deliver(const Bytes &b)
    {
        for (uint8_t x : b)
            if (rx->len < 255)
                rx->data[rx->len++] = x;
    }
    void send(const uint8_t *b, int n)
    {
        sent.push_back(Bytes(b, b + n));
        pend = true;
        if (tx_in_send)
        {
            pend = false;
            ctx();
        }
    }
    void tx_done()
    {
        if (pend)
        {
            pend = false;
            ctx();
        }
    }
};
static Driver sd, md;
#define DRV(d)                                                                    \
    static void d##_init(baud_t, parity_t) { d.n_init++; }                        \
    static void d##_send(modbus_buf_t *b, modbus_buf_size_t n) { d.send(b, n); }  \
    static void d##_rcv(modbus_req_resp_t *r) { d.rx = r; }                       \
    static void d##_dis(void) {}                                                  \
    static void d##_15(driver_subscr_cb_t c) { d.c15 = c; }                       \
    static void d##_tx(driver_subscr_cb_t c) { d.ctx = c; }                       \
    static void d##_35(driver_subscr_cb_t c) { d.c35 = c; }                       \
    static void d##_fe(driver_subscr_cb_t c) { d.cfe = c; }                       \
    static const modbus_RTU_driver_struct_t d##_drv = {d##_init, d##_send, d##_rcv, d##_dis, d##_15, d##_tx, d##_35, d##_fe};
DRV(sd)
DRV(md)
extern "C" const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &sd_drv; }
extern "C" const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &md_drv; }

// ---------------------------------------------------------------- slave
static const int NC = MAIN_APP_COILS_QTY, ND = MAIN_APP_DISCRET_INPUTS_QTY, NI = MAIN_APP_INPUT_REG_QTY, NH = MAIN_APP_HOLDING_REG_QTY;
static modbus_coil_disin_t vc[NC + 1], vd[ND + 1];
static modbus_reg_t vi[NI + 1], vh[NH + 1];
static modbus_coil_disin_t *pc[NC], *pd[ND]; // model of the registrations
static modbus_reg_t *pi[NI], *ph[NH];
static int sid;
static int n_of(int fc) { return fc == 2 ? ND : fc == 4 ? NI : fc == 3 || fc == 6 || fc == 16 ? NH : NC; }
static bool is_reg(int fc, int a) { return fc == 2 ? pd[a] != 0 : fc == 4 ? pi[a] != 0 : fc == 3 || fc == 6 || fc == 16 ? ph[a] != 0 : pc[a] != 0; }
static int val_of(int fc, int a) { return fc == 2 ? *pd[a] : fc == 4 ? *pi[a] : fc == 3 || fc == 6 || fc == 16 ? *ph[a] : *pc[a]; }
static int prop_of(int fc) { return fc == 1 || fc == 2 ? 4 : fc == 3 || fc == 4 ? 5 : fc == 5 || fc == 15 ? 6 : 7; }
static int some_id() { return one_in(3) ? 1 + R(247) : num() & 255; }

static void register_all(int hole) // hole: every hole-th object stays unregistered (0: none)
{
    int rot = R(1000);
    auto gap = [&](int i) { return hole && (one_in(hole)); };
    for (int i = 0; i < NC; i++) { pc[i] = gap(i) ? 0 : &vc[(i + rot) % NC]; register_app_data_to_modbus_slave_coils_table(i, pc[i]); }
    for (int i = 0; i < ND; i++) { pd[i] = gap(i) ? 0 : &vd[(i + rot) % ND]; register_app_data_to_modbus_slave_din_table(i, pd[i]); }
    for (int i = 0; i < NI; i++) { pi[i] = gap(i) ? 0 : &vi[(i + rot) % NI]; register_app_data_to_modbus_slave_inreg_table(i, pi[i]); }
    for (int i = 0; i < NH; i++) { ph[i] = gap(i) ? 0 : &vh[(i + rot) % NH]; register_app_data_to_modbus_slave_hreg_table(i, ph[i]); }
    L("register all objects%s", hole ? " except some" : "");
}
template <class T> static T *unused(T *v, T **reg, int n) // a variable that no object has
{
    std::vector<bool> used(n + 1);
    for (int i = 0; i < n; i++)
        if (reg[i])
            used[reg[i] - v] = true;
    int at = R(n + 1);
    while (used[at])
        at = (at + 1) % (n + 1);
    return v + at;
}
static void randomize_data()
{
    for (auto &x : vc) x = R(2);
    for (auto &x : vd) x = R(2);
    for (auto &x : vi) x = num();
    for (auto &x : vh) x = num();
}
struct Snap
{
    std::vector<int> c, d, i, h;
    Snap() : c(vc, vc + NC + 1), d(vd, vd + ND + 1), i(vi, vi + NI + 1), h(vh, vh + NH + 1) {}
    bool operator==(const Snap &o) const { return c == o.c && d == o.d && i == o.i && h == o.h; }
};
static void spoll(int n)
{
    while (n--)
        check_modbus_request();
}
static void slave_start()
{
    sd = Driver();
    sid = some_id();
    sd.tx_in_send = one_in(3);
    L("slave init, address %d%s", sid, sd.tx_in_send ? ", driver reports the end of a transmission inside send" : "");
    modbus_slave_init(RTU, 9600, NONE, sid);
    if (!sd.c15 || !sd.c35 || !sd.ctx || !sd.cfe || !sd.rx || !sd.rx->data)
        fail({11, 9}, "init does not set up the driver");
    randomize_data();
    register_all(one_in(2) ? 0 : 1 << R(9));
}
static Bytes some_frame();
static void slave_restart() // init again in the middle of anything
{
    if (one_in(2))
    {
        Bytes f = one_in(2) ? some_frame() : Bytes(1 + R(4), (uint8_t)R(256));
        if (f.size()) f.resize(1 + R(f.size()));
        L("bytes %s", hex(f).c_str());
        sd.deliver(f);
        if (one_in(3)) sd.c15();
        if (one_in(3)) sd.c35();
        if (one_in(6)) sd.cfe();
        spoll(R(3));
    }
    sd.pend = false; // the driver's init stops whatever was being sent
    sid = some_id();
    L("slave init again, address %d", sid);
    modbus_slave_init(RTU, 9600, NONE, sid);
}
static Bytes some_request(int fc)
{
    int n = n_of(fc), maxq = spec_max_qty(fc), adr, qty;
    switch (R(6))
    {
    case 0: adr = num(); qty = num(); break;
    case 1: qty = 1 + R(maxq); adr = R(n); break;
    case 2: qty = 1 + R(maxq < n ? maxq : n); adr = n - qty + R(3) - 1; break;
    case 3: qty = 1 + R(20); adr = R(n - 20); break;
    case 4: qty = num() % (maxq + 3); adr = num() % (n + 3); break;
    default: qty = 1 + R(maxq < n ? maxq : n); adr = R(n - qty + 1); break;
    }
    if (fc == 5)
        qty = one_in(4) ? num() : one_in(2) ? 0 : 0xFF00;
    if (fc == 6)
        qty = num();
    Bytes b = {(uint8_t)sid, (uint8_t)fc, (uint8_t)(adr >> 8), (uint8_t)adr, (uint8_t)(qty >> 8), (uint8_t)qty};
    if (fc == 15 || fc == 16)
    {
        int cnt = fc == 15 ? spec_bytes(qty) : qty * 2;
        if (one_in(10))
            cnt += one_in(2) ? 1 : -1;
        if (one_in(20))
            cnt = R(256);
        if (cnt < 0 || cnt > 246)
            cnt = R(247);
        b.push_back(cnt);
        int mode = R(3);
        for (int i = 0; i < cnt; i++)
            b.push_back(mode == 0 ? R(256) : mode == 1 ? 0xFF : num());
    }
    return b;
}
static const int FCS[] = {1, 2, 3, 4, 5, 6, 15, 16};
static int some_fc()
{
    switch (P)
    {
    case 4: return 1 + R(2);
    case 5: return 3 + R(2);
    case 6: return one_in(3) ? 5 : 15;
    case 7: return one_in(3) ? 6 : 16;
    default: return FCS[R(8)];
    }
}
static bool good_request(const Bytes &f)
{
    if (f.size() < 4 || f[0] != sid || !crc_ok(f))
        return false;
    Bytes x = f;
    x.resize(300);
    int want = spec_req_len(x.data());
    return want == 0 || want == (int)f.size() - 2;
}
// the slave is idle; one frame arrives; fe: the driver reports a framing error for it
static void exchange(Bytes f, bool fe)
{
    bool good = good_request(f) && !fe;
    Snap before;
    sd.sent.clear();
    L("frame %s arrives at the slave%s", hex(f).c_str(), fe ? " with a frame error" : "");
    if (sd.rx->len != 0)
        fail({11}, "the slave does not listen: old bytes are still in its request buffer");
    int fe_at = R(3);
    sd.deliver(f);
    if (fe && fe_at == 0)
        sd.cfe();
    int a = R(3);
    L("poll x%d, T1.5, ", a);
    spoll(a);
    sd.c15();
    if (fe && fe_at == 1)
        sd.cfe();
    a = R(3);
    L("poll x%d, T3.5", a);
    spoll(a);
    if (fe && fe_at == 2)
        sd.cfe();
    if (sd.sent.size())
        fail({11, 10}, "the slave answers before the end of the frame");
    if (!(before == Snap()))
        fail({10}, "the slave executes a request before the end of the frame");
    sd.c35();
    a = 2 + R(3);
    L("poll x%d", a);
    spoll(a);
    if (!good)
    {
        if (sd.sent.size())
            fail({10, f.size() < 1 || f[0] != sid || !crc_ok(f) ? 3 : 10}, "the slave answers a frame it must ignore, with %s", hex(sd.sent[0]).c_str());
        if (!(before == Snap()))
            fail({10, 3}, "the slave executes a frame it must ignore");
    }
    else
    {
        int fc = f[1], adr = f.size() > 5 ? spec_u16(&f[2]) : 0, val = f.size() > 5 ? spec_u16(&f[4]) : 0;
        bool known = spec_known_fc(fc);
        int pp = known ? prop_of(fc) : 8;
        Bytes x = f;
        x.resize(300);
        unsigned exc = spec_exc(x.data(), n_of(fc));
        int qty = fc == 5 || fc == 6 ? 1 : val;
        if (sd.sent.size() == 0)
            fail({11, exc || !known ? 8 : pp}, "the slave does not answer an intact request");
        if (sd.sent.size() > 1)
            fail({11}, "the slave answers a request twice");
        Bytes r = sd.sent[0];
        if (r.size() < 5 || r.size() > 255)
            fail({9, 2, exc ? 8 : pp}, "response of %d bytes", (int)r.size());
        if (r[0] != sid || !crc_ok(r))
            fail({2}, "the response %s does not carry the address of the slave and a correct CRC", hex(r).c_str());
        bool unreg = false;
        if (!exc)
            for (int k = 0; k < qty; k++)
                unreg = unreg || !is_reg(fc, adr + k);
        r.resize(r.size() - 2);
        if (exc || unreg)
        {
            unsigned allowed = exc ? exc : 1u << 4;
            if (r.size() != 3 || r[1] != (fc | 0x80) || r[2] > 31 || !((allowed >> r[2]) & 1))
            {
                if (unreg)
                    fail({12, 8}, "expected the exception 4, because an object has no variable, got %s", hex(r).c_str());
                fail({8}, "expected exception (mask %x), got %s", allowed, hex(r).c_str());
            }
            if (exc && !(before == Snap()))
                fail({8}, "a refused request changed data");
        }
        else
        {
            if (r.size() == 3 && r[1] == (fc | 0x80) && r[2] == 4)
                fail({12, 8, pp}, "the exception 4 although every object has a variable: %s for %s", hex(r).c_str(), hex(f).c_str());
            if (r[1] != fc)
                fail({8, pp}, "unexpected response %s to a valid request", hex(r).c_str());
            if (fc <= 4)
            {
                bool bits = fc <= 2;
                int cnt = bits ? spec_bytes(qty) : 2 * qty;
                if ((int)r.size() != 3 + cnt || r[2] != cnt)
                    fail({pp}, "wrong length or byte count in %s", hex(r).c_str());
                for (int k = 0; k < qty; k++)
                {
                    int got = bits ? spec_bit(&r[3], k) : spec_u16(&r[3 + 2 * k]);
                    if (got != val_of(fc, adr + k))
                        fail({pp, 12}, "object %d: %d instead of %d in %s", adr + k, got, val_of(fc, adr + k), hex(r).c_str());
                }
                for (int k = qty; bits && k < 8 * cnt; k++)
                    if (spec_bit(&r[3], k))
                        fail({pp}, "unused bit set in %s", hex(r).c_str());
            }
            else
            {
                if (r != Bytes(f.begin(), f.begin() + 6))
                    fail({pp}, "response %s does not repeat the request", hex(r).c_str());
                for (int k = 0; k < qty; k++)
                {
                    int v = fc == 5 ? val == 0xFF00 : fc == 6 ? val : fc == 15 ? spec_bit(&f[7], k) : spec_u16(&f[7 + 2 * k]);
                    if (val_of(fc, adr + k) != v)
                        fail({pp, 12}, "object %d has value %d instead of %d", adr + k, val_of(fc, adr + k), v);
                }
            }
        }
        // nothing else changed
        Snap after;
        if (known && !exc && (fc > 4))
            for (int k = 0; k < qty; k++)
                if (is_reg(fc, adr + k))
                {
                    if (fc == 5 || fc == 15)
                        after.c[pc[adr + k] - vc] = before.c[pc[adr + k] - vc];
                    else
                        after.h[ph[adr + k] - vh] = before.h[ph[adr + k] - vh];
                }
        if (!(before == after))
            fail({pp, exc ? 8 : pp, 12}, "an object that is not addressed changed");
    }
    if (one_in(8))
        randomize_data(); // a request that is executed again would be seen
    Snap done;
    if (sd.pend)
    {
        a = R(3);
        spoll(a);
        if (good && sd.sent.size() != 1)
            fail({11}, "the slave sends again while it transmits");
        L("end of transmission");
        sd.tx_done();
    }
    spoll(2);
    if (sd.sent.size() > (good ? 1u : 0u))
        fail({11, 10}, "the slave answers again");
    if (!(done == Snap()))
        fail({11, 10}, "the slave executes a request again");
}
static Bytes damaged(Bytes f)
{
    int bits = f.size() * 8, len = 1 + R(16), at = R(bits);
    bool any = false;
    for (int i = at; i < at + len && i < bits; i++)
        if (i == at || R(2))
            f[i / 8] ^= 1 << (i % 8), any = true;
    return f;
}
static Bytes some_frame()
{
    if (dict_frames.size() && one_in(3))
    {
        Bytes b = dict_frames[R(dict_frames.size())];
        if (b.size())
        {
            b[0] = sid;
            Bytes x = b;
            x.resize(300);
            int l = spec_req_len(x.data());
            if (l && l <= 253)
                b = Bytes(x.begin(), x.begin() + l);
        }
        return framed(b);
    }
    int m = R(P >= 4 && P <= 7 ? 5 : 14);
    Bytes b = some_request(some_fc());
    switch (m)
    {
    case 5: b[0] ^= 1 + R(255); return framed(b);
    case 6: return damaged(framed(b));
    case 7: b[1] = R(256); return framed(b);
    case 8: b.resize(R(b.size() + 1)); return framed(b);
    case 9: { int n = R(8); while (n-- && b.size() < 250) b.push_back(R(256)); return framed(b); }
    case 10: { Bytes r(2 + R(20)); for (auto &x : r) x = R(256); r[0] = sid; r[1] = one_in(2) ? R(256) : FCS[R(8)]; return framed(r); }
    case 11: { Bytes r(R(12)); for (auto &x : r) x = R(256); if (r.size() && R(2)) r[0] = sid; return r; }
    case 12: { Bytes r(253 - R(4)); for (auto &x : r) x = R(256); r[0] = sid; r[1] = one_in(2) ? FCS[R(8)] : R(256); return framed(r); }
    default: return framed(b);
    }
}
static void chaos()
{
    int n = R(40);
    bool after15 = false, checked = false;
    for (int i = 0; i < n; i++)
    {
        size_t was = sd.sent.size();
        Bytes in(sd.rx->data, sd.rx->data + sd.rx->len);
        checked = checked || good_request(in); // the slave may have checked these bytes in an earlier poll
        switch (R(8))
        {
        case 0: case 1:
        {
            Bytes f = one_in(2) ? some_frame() : Bytes(1 + R(4), (uint8_t)R(256));
            L("bytes %s%s", hex(f).c_str(), after15 ? " and a frame error" : "");
            if (after15)
                sd.cfe();
            sd.deliver(f);
            break;
        }
        case 2: L("T1.5"); sd.c15(); after15 = true; break;
        case 3: L("T3.5"); if (!after15) sd.c15(); sd.c35(); after15 = false; break;
        case 4: L("frame error"); sd.cfe(); break;
        case 5: L("end of transmission"); sd.tx_done(); break;
        default: L("poll"); check_modbus_request(); break;
        }
        if (sd.sent.size() > was)
        {
            if (!checked)
                fail({10, 3}, "the slave answers something that is no intact request: %s", hex(in).c_str());
            checked = false;
        }
    }
    L("quiet bus");
    for (int r = 0; r < 2; r++)
    {
        sd.tx_done();
        spoll(1 + R(2));
        sd.c15();
        spoll(1 + R(2));
        sd.c35();
        spoll(1 + R(2));
        sd.tx_done();
        spoll(1 + R(2));
    }
    spoll(1);
}
// the events of a driver that reports every pause exactly once: after the last byte T1.5, then T3.5, and a framing
// error only for bytes on the bus; nothing is reported again because the bus stays quiet
static void chaos_owed()
{
    int n = R(30);
    bool d15 = false, d35 = false, checked = false;
    auto poll = [&] {
        size_t was = sd.sent.size();
        Bytes in(sd.rx->data, sd.rx->data + sd.rx->len);
        checked = checked || good_request(in);
        check_modbus_request();
        if (sd.sent.size() > was)
        {
            if (!checked)
                fail({10, 3}, "the slave answers something that is no intact request: %s", hex(in).c_str());
            checked = false;
        }
    };
    for (int i = 0; i < n; i++)
    {
        Bytes in(sd.rx->data, sd.rx->data + sd.rx->len);
        checked = checked || good_request(in);
        switch (R(7))
        {
        case 0: case 1:
        {
            Bytes f = R(3) ? some_frame() : Bytes(1 + R(4), (uint8_t)R(256));
            bool fe = (d35 && !d15) || one_in(8);
            L("bytes %s%s", hex(f).c_str(), fe ? " and a frame error" : "");
            sd.deliver(f);
            d15 = d35 = true;
            if (fe)
                sd.cfe();
            break;
        }
        case 2: if (d15) { L("T1.5"); d15 = false; sd.c15(); } break;
        case 3: if (d35) { if (d15) { L("T1.5"); d15 = false; sd.c15(); } L("T3.5"); d35 = false; sd.c35(); } break;
        case 4: if (sd.pend) { L("end of transmission"); sd.tx_done(); } break;
        default: L("poll"); poll(); break;
        }
    }
    L("quiet bus: the pending end of transmission and the pauses still to be reported, then polls");
    for (int r = 0; r < 3; r++)
    {
        sd.tx_done();
        for (int k = R(3); k--;) poll();
        if (d15) { d15 = false; L("T1.5"); sd.c15(); }
        for (int k = R(3); k--;) poll();
        if (d35) { d35 = false; L("T3.5"); sd.c35(); }
        for (int k = 2 + R(3); k--;) poll();
    }
}
static void slave_history()
{
    slave_start();
    for (int i = 0; i < 60; i++)
    {
        if (one_in(12))
            randomize_data();
        if (one_in(25) || (P == 12 && one_in(4)))
        {
            if (P == 12 && R(3))
            {
                int k = R(4), n = k == 0 ? NC : k == 1 ? ND : k == 2 ? NI : NH, a = one_in(2) ? R(n) : one_in(2) ? n - 1 - R(3) : R(3);
                bool off = one_in(4);
                L("register object %d of kind %d%s", a, k, off ? " as missing" : " again");
                if (k == 0) pc[a] = off ? 0 : unused(vc, pc, NC), register_app_data_to_modbus_slave_coils_table(a, pc[a]);
                if (k == 1) pd[a] = off ? 0 : unused(vd, pd, ND), register_app_data_to_modbus_slave_din_table(a, pd[a]);
                if (k == 2) pi[a] = off ? 0 : unused(vi, pi, NI), register_app_data_to_modbus_slave_inreg_table(a, pi[a]);
                if (k == 3) ph[a] = off ? 0 : unused(vh, ph, NH), register_app_data_to_modbus_slave_hreg_table(a, ph[a]);
            }
            else if (P == 12 || one_in(2))
            {
                int a = R(NC < NI ? NC : NI) % (NH < ND ? NH : ND);
                bool off = one_in(4);
                L("register object %d of every kind%s", a, off ? " as missing" : " with a variable of its own");
                pc[a] = off ? 0 : unused(vc, pc, NC); register_app_data_to_modbus_slave_coils_table(a, pc[a]);
                pd[a] = off ? 0 : unused(vd, pd, ND); register_app_data_to_modbus_slave_din_table(a, pd[a]);
                pi[a] = off ? 0 : unused(vi, pi, NI); register_app_data_to_modbus_slave_inreg_table(a, pi[a]);
                ph[a] = off ? 0 : unused(vh, ph, NH); register_app_data_to_modbus_slave_hreg_table(a, ph[a]);
            }
            else
                register_all(one_in(2) ? 0 : 1 << R(9));
        }
        if ((P == 11 || P == 10 || P == 9 || P == 3) && one_in(4))
            one_in(2) ? chaos() : chaos_owed();
        if ((P == 11 || P == 10) && one_in(10))
            slave_restart();
        exchange(some_frame(), (P == 10 || P == 11 || P == 9) && one_in(8));
    }
}

// ---------------------------------------------------------------- master
struct Req
{
    int fc, adr, qty, id, val;
    std::vector<uint16_t> data;
    Bytes frame() const
    {
        int v = fc == 5 ? (val ? 0xFF00 : 0) : fc == 6 ? val : qty;
        Bytes b = {(uint8_t)id, (uint8_t)fc, (uint8_t)(adr >> 8), (uint8_t)adr, (uint8_t)(v >> 8), (uint8_t)v};
        if (fc == 15)
        {
            b.push_back(spec_bytes(qty));
            b.resize(7 + spec_bytes(qty));
            for (int k = 0; k < qty; k++)
                b[7 + k / 8] |= (data[k] & 1) << (k % 8);
        }
        if (fc == 16)
        {
            b.push_back(2 * qty);
            for (int k = 0; k < qty; k++)
                b.push_back(data[k] >> 8), b.push_back(data[k]);
        }
        return framed(b);
    }
    bool valid() const { return fc == 5 || fc == 6 || (qty >= 1 && qty <= spec_max_qty(fc)); }
    int objs() const { return fc == 5 || fc == 6 ? 1 : qty; }
};
struct Ev // what the application is told
{
    char kind; // d data, w write confirmed, x exception, t timeout, c communication error
    int obj, slave, adr, val, fc, qty;
};
static std::vector<Ev> evs;
static std::vector<Req> waiting; // accepted, not yet finished (the first may be on its way)
static bool cb_requests;
static void request(bool in_callback);
static void told(Ev e)
{
    evs.push_back(e);
    if (cb_requests && one_in(3) && waiting.size() < 4)
        request(true);
}
extern "C" {
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { told({'d', 1, s, a, v, 0, 0}); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { told({'d', 2, s, a, v, 0, 0}); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { told({'d', 3, s, a, v, 0, 0}); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { told({'d', 4, s, a, v, 0, 0}); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { told({'w', 1, s, a, 0, 0, q}); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { told({'w', 3, s, a, 0, 0, q}); }
void modbus_master_coil_exception(const modbus_read_data_t *e) { told({'x', 1, e->slave_ID, e->data_adr, *(const uint8_t *)&e->exception_code, e->fun_conde, e->data_qty}); }
void modbus_master_disin_exception(const modbus_read_data_t *e) { told({'x', 2, e->slave_ID, e->data_adr, *(const uint8_t *)&e->exception_code, e->fun_conde, e->data_qty}); }
void modbus_master_hreg_exception(const modbus_read_data_t *e) { told({'x', 3, e->slave_ID, e->data_adr, *(const uint8_t *)&e->exception_code, e->fun_conde, e->data_qty}); }
void modbus_master_inreg_exception(const modbus_read_data_t *e) { told({'x', 4, e->slave_ID, e->data_adr, *(const uint8_t *)&e->exception_code, e->fun_conde, e->data_qty}); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e) { told({'t', 0, e->slave_ID, e->data_adr, e->resp_read_error, e->fun_conde, e->data_qty}); }
void modbus_master_communication_error(const modbus_master_error_report_t *e) { told({'c', 0, e->slave_ID, e->data_adr, e->resp_read_error, e->fun_conde, e->data_qty}); }
}
static int obj_of(int fc) { return fc == 2 ? 2 : fc == 4 ? 4 : fc == 3 || fc == 6 || fc == 16 ? 3 : 1; }
static uint16_t rbuf[65536];
static bool cbuf[65536];
static Req some_req()
{
    Req q;
    q.fc = FCS[R(8)];
    q.adr = num();
    q.id = some_id();
    q.val = q.fc == 5 ? R(2) : num();
    int m = q.fc == 5 || q.fc == 6 ? 1 : spec_max_qty(q.fc);
    q.qty = one_in(6) ? num() : one_in(4) ? m + R(3) - 1 : 1 + (one_in(2) ? R(m) : R(20));
    for (int k = 0; k < q.qty && k < 2000; k++)
        q.data.push_back(q.fc == 15 ? R(2) : num());
    return q;
}
static Req valid_req()
{
    for (;;)
    {
        Req q = some_req();
        if (q.valid())
            return q;
    }
}
static int call(const Req &q)
{
    for (size_t k = 0; k < q.data.size(); k++)
        rbuf[k] = q.data[k], cbuf[k] = q.data[k] & 1;
    switch (q.fc)
    {
    case 1: return modbus_master_read_coils(q.adr, q.qty, q.id);
    case 2: return modbus_master_read_discrete_inputs(q.adr, q.qty, q.id);
    case 3: return modbus_master_read_holding_reg(q.adr, q.qty, q.id);
    case 4: return modbus_master_read_input_reg(q.adr, q.qty, q.id);
    case 5: return modbus_master_write_single_coil(q.adr, q.id, q.val);
    case 6: return modbus_master_write_single_reg(q.adr, q.id, q.val);
    case 15: return modbus_master_write_multiple_coils(q.adr, q.qty, q.id, cbuf);
    default: return modbus_master_write_multiple_reg(q.adr, q.qty, q.id, rbuf);
    }
}
static void request_q(const Req &q, bool in_callback)
{
    size_t n = md.sent.size();
    int r = call(q);
    L("%srequest: function %d, slave %d, address %d, quantity %d, value %d -> %d", in_callback ? "  in the callback, " : "", q.fc, q.id, q.adr, q.qty, q.val, r);
    int want = waiting.size() >= 5 ? MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR : !q.valid() ? MODBUS_MASTER_LIB_PDU_REQ_ERROR : MODBUS_MASTER_REQUEST_SEND_TO_QUEUE;
    if (r != want)
    {
        if (want == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE)
            fail({15, 14, 13}, "a valid request is refused (%d) with %d of 5 messages in use", r, (int)waiting.size());
        else
            fail({14, waiting.size() >= 5 ? 15 : 14}, "a request that must be refused gets %d", r);
    }
    if (md.sent.size() != n)
        fail({14, 21}, "a request call sends by itself");
    if (r == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE)
        waiting.push_back(q);
}
static void request(bool in_callback) { request_q(some_req(), in_callback); }
static Bytes answer_to(const Req &q)
{
    Bytes f = q.frame(), b = {f[0], f[1]};
    if (q.fc <= 4)
    {
        int n = q.fc <= 2 ? spec_bytes(q.qty) : 2 * q.qty;
        b.push_back(n);
        for (int i = 0; i < n; i++)
            b.push_back(one_in(2) ? R(256) : num());
    }
    else
        b.insert(b.end(), f.begin() + 2, f.begin() + 6);
    return b;
}
static bool answers(const Req &q, const Bytes &b)
{
    Bytes f = q.frame();
    if (b.size() < 3 || b[0] != q.id)
        return false;
    if (b[1] == (q.fc | 0x80))
        return b.size() == 3;
    if (b[1] != q.fc)
        return false;
    if (q.fc <= 4)
    {
        int n = q.fc <= 2 ? spec_bytes(q.qty) : 2 * q.qty;
        return b[2] == n && (int)b.size() == 3 + n;
    }
    return b.size() == 6 && Bytes(b.begin() + 2, b.end()) == Bytes(f.begin() + 2, f.begin() + 6);
}
static void check_outcome(const Req &q, const Bytes &b)
{
    bool exc = b[1] & 0x80;
    int pp = !exc && q.fc <= 4 ? 16 : 17;
    if (evs.empty())
        fail({pp, 21}, "the response %s answers the request, but the application is not told", hex(b).c_str());
    for (auto &e : evs)
        if (e.kind == 't' || e.kind == 'c')
            fail({pp, 21, e.kind == 't' ? 20 : 19}, "an answered request is reported as failed");
    if (exc)
    {
        Ev e = evs[0];
        if (evs.size() != 1 || e.kind != 'x')
            fail({17, 21}, "an exception response is not reported exactly once as an exception");
        if (e.obj != obj_of(q.fc) || e.slave != q.id || e.adr != q.adr || e.val != b[2] || e.fc != q.fc || e.qty != q.objs())
            fail({17}, "wrong exception report: kind %d slave %d address %d code %d function %d quantity %d", e.obj, e.slave, e.adr, e.val, e.fc, e.qty);
        return;
    }
    if (q.fc > 4)
    {
        Ev e = evs[0];
        if (evs.size() != 1 || e.kind != 'w')
            fail({17, 21}, "a write is not confirmed exactly once");
        if (e.obj != obj_of(q.fc) || e.slave != q.id || e.adr != q.adr || e.qty != q.objs())
            fail({17}, "wrong write confirmation: kind %d slave %d address %d quantity %d", e.obj, e.slave, e.adr, e.qty);
        return;
    }
    std::map<int, int> got;
    for (auto &e : evs)
    {
        int k = (e.adr - q.adr) & 0xFFFF;
        if (e.kind != 'd' || e.obj != q.fc || e.slave != q.id || k >= q.qty || got.count(k))
            fail({16}, "unexpected or repeated delivery: kind %d slave %d address %d", e.obj, e.slave, e.adr);
        got[k] = e.val;
    }
    for (int k = 0; k < q.qty; k++)
    {
        int v = q.fc <= 2 ? spec_bit(&b[3], k) : spec_u16(&b[3 + 2 * k]);
        if (!got.count(k) || got[k] != v)
            fail({16}, "object %d is delivered as %d instead of %d", (q.adr + k) & 0xFFFF, got.count(k) ? got[k] : -1, v);
    }
}
static void mpoll(int n)
{
    while (n-- > 0)
        update_modbus_master_manager();
}
static void mtick(int n)
{
    while (n-- > 0)
        update_modbus_master_timout_timer();
}
static void report_check(const Req &q, const Ev &e, int p)
{
    if (e.slave != q.id || e.fc != q.fc || e.adr != q.adr || e.qty != q.objs())
        fail({p}, "the report names slave %d function %d address %d quantity %d", e.slave, e.fc, e.adr, e.qty);
}
// the first waiting request: all its attempts, until its outcome
static void serve()
{
    Req q = waiting[0];
    Bytes f = q.frame();
    int last = 0; // error of the last attempt
    int tries = P == 19 || P == 21 || P == 15 || P == 22 ? 2 : 4;
    evs.clear();
    size_t n = md.sent.size(); // before this attempt
    md.tx_in_send = one_in(4);
    for (int attempt = 0;; attempt++)
    {
        int polls = 0;
        while (md.sent.size() == n && polls++ < 4)
            mpoll(1);
        L("attempt %d: %d polls until the request is sent%s", attempt + 1, polls, md.tx_in_send ? ", transmission ends inside send" : "");
        if (evs.size())
            fail({21, 18, 19}, "the application is told something although nothing was received");
        if (md.sent.size() != n + 1)
            fail({attempt ? 19 : 15, 21}, "attempt %d of a waiting request is not sent", attempt + 1);
        if (md.sent.back() != f)
        {
            Bytes s = md.sent.back();
            if (attempt)
                fail({19}, "attempt %d sends %s instead of %s", attempt + 1, hex(s).c_str(), hex(f).c_str());
            for (size_t i = 1; i < waiting.size(); i++)
                if (waiting[i].frame() == s)
                    fail({15}, "request %d is sent before an older one", (int)i);
            if (s.size() < 2 || s[0] != f[0] || !crc_ok(s))
                fail({2, 13}, "frame without correct address and CRC: %s", hex(s).c_str());
            fail({13, 15}, "frame %s instead of %s", hex(s).c_str(), hex(f).c_str());
        }
        // what comes back
        int kind = one_in(tries) ? R(3) : 2 + R(10);
        if (P == 20)
            kind = one_in(2) ? 9 : one_in(2) ? 8 : R(11);
        if (P == 16 || P == 17 || P == 23)
            kind = one_in(8) ? R(11) : R(2);
        Bytes b = answer_to(q), wire;
        bool fe = false, silent = false;
        int foreign = one_in(P == 20 ? 2 : 6) ? 1 + R(2) : 0;
        switch (kind)
        {
        case 0: break;
        case 1: b = {(uint8_t)q.id, (uint8_t)(q.fc | 0x80), (uint8_t)(one_in(3) ? num() : 1 + R(4))}; break;
        case 2: break;
        case 3: fe = true; break;
        case 4: b[1] ^= 1 << R(8); break;
        case 5: b[2] += 1 + R(255); break;
        case 6: b.resize(one_in(2) ? R(b.size()) + 1 : b.size() + 1 + R(3)); break;
        case 7: b[2 + R(b.size() - 2)] ^= 1 << R(8); break;
        case 8: if (one_in(3)) foreign = 3; silent = one_in(2); if (!foreign) foreign = 1; break;
        case 9: silent = true; break;
        case 10: b = Bytes(1 + R(20)); for (auto &x : b) x = R(256); b[0] = q.id; if (b.size() > 1 && R(2)) b[1] = q.fc | (R(2) << 7); break;
        default: b = answer_to(valid_req()); b[0] = q.id; break;
        }
        if (b.size() > 253)
            b.resize(253);
        wire = framed(b);
        bool bad_crc = false;
        if (kind == 2)
        {
            wire = damaged(wire);
            if (wire[0] != q.id)
                wire[0] = q.id;
            bad_crc = !crc_ok(wire);
            if (!bad_crc)
                wire.back() ^= 1, bad_crc = true;
        }
        if (wire.size() > 253 + 2)
            wire.resize(255), bad_crc = !crc_ok(wire);
        bool ok = !fe && !bad_crc && answers(q, b);
        // the transmission ends, perhaps with the response already there when the master looks
        bool early = md.tx_in_send ? false : one_in(5);
        if (!md.tx_in_send && !early)
        {
            mpoll(R(3));
            mtick(one_in(4) ? R(2000) : R(3));
            L("polls, ticks, end of transmission");
            md.tx_done();
        }
        else if (early)
        {
            L("end of transmission, response before the next poll");
            md.tx_done();
            foreign = 0;
        }
        int ticks = 0;
        if (!early && (foreign || silent || one_in(2)))
        {
            mpoll(1);
        }
        else
            early = true;
        if (early)
            foreign = 0;
        if (early && silent)
        {
            mpoll(1);
            early = false;
        }
        auto wait = [&](int m) {
            while (m > 0)
            {
                int s = 1 + R(m);
                mtick(s);
                ticks += s;
                m -= s;
                int pl = one_in(3) ? 0 : 1 + R(2);
                mpoll(pl);
                if (evs.size())
                    return;
            }
        };
        if (!early)
        {
            int m = one_in(3) ? R(990) : one_in(3) ? R(20) : 0;
            L("%d ticks with polls", m);
            wait(m);
            if (evs.size())
                fail({20, 21}, "reported after %d of 1000 ticks", ticks);
        }
        for (; foreign > 0; foreign--)
        {
            Bytes o = answer_to(one_in(2) ? q : valid_req());
            o[0] = q.id ^ (1 + R(255));
            o = framed(o);
            if (one_in(2))
                o = damaged(o);
            if (o[0] == q.id)
                o[0] ^= 1;
            if (o.size() > 255)
                o.resize(255);
            L("frame of another device: %s, T1.5, poll, T3.5", hex(o).c_str());
            int slack = one_in(P == 20 ? 2 : 5) ? 1 + R(5) : 0; // ticks between these steps
            auto some = [&]() {
                int k = slack && ticks + slack < 990 ? R(slack + 1) : 0;
                mtick(k), ticks += k;
            };
            some();
            md.deliver(o);
            some();
            md.c15();
            some();
            mpoll(1);
            some();
            md.c35();
            some();
            mpoll(R(2));
            some();
            if (slack)
                L("  (%d ticks so far)", ticks);
            if (evs.size())
                fail({18, 21, 20}, "a frame of another device ends the request");
        }
        if (silent)
        {
            int left = 998 - ticks;
            if (one_in(2))
                wait(left > 0 ? R(left + 1) : 0);
            if (evs.size())
                fail({20, 21}, "timeout reported after %d of 1000 ticks", ticks);
            left = 1001 - ticks;
            if (left > 0)
                mtick(left), ticks += left;
            mtick(R(3) ? 0 : R(3000));
            L("silence until %d ticks are over, poll", ticks);
            mpoll(1);
            if (evs.size() == 0)
                fail({20, 21}, "no timeout report after %d ticks", ticks);
            mpoll(waiting.size() == 1 ? R(2) : 0); // not the next request yet
            if (evs.size() != 1 || evs[0].kind != 't')
                fail({20, 21}, "%d reports, the first of kind %c, instead of one timeout report", (int)evs.size(), evs[0].kind);
            report_check(q, evs[0], 20);
            if (evs[0].val != MODBUS_MASTER_RESP_TIMEOUT_ERR)
                fail({20}, "timeout report with error %d", evs[0].val);
            waiting.erase(waiting.begin());
            return;
        }
        L("response %s%s, T1.5", hex(wire).c_str(), fe ? " with a frame error" : "");
        int fe_at = R(2);
        md.deliver(wire);
        if (fe && fe_at == 0)
            md.cfe();
        if (!early)
            mpoll(R(2));
        md.c15();
        if (!early && one_in(2))
            mpoll(1 + R(2));
        if (fe && fe_at == 1)
            md.cfe();
        if (evs.size())
            fail({21, 18}, "the master reports before the end of the response");
        md.c35();
        n = md.sent.size();
        md.tx_in_send = one_in(4);
        for (int i = 1 + R(3); i > 0 && evs.empty() && md.sent.size() == n; i--)
            mpoll(1);
        L("T3.5, polls");
        if (ok)
        {
            for (int i = 0; i < 3 && evs.empty() && md.sent.size() == n; i++)
                mpoll(1);
            check_outcome(q, b);
            waiting.erase(waiting.begin());
            return;
        }
        last = fe || !bad_crc ? MODBUS_MASTER_RESP_FRAME_ERR : MODBUS_MASTER_RESP_RTU_CRC_ERR;
        for (auto &e : evs)
            if (e.kind == 'd' || e.kind == 'w' || e.kind == 'x')
                fail({18, 21, bad_crc ? 3 : 18}, "a response that does not answer the request is used: %s", hex(wire).c_str());
        if (attempt < 3)
        {
            if (evs.size())
                fail({19}, "reported as failed after attempt %d", attempt + 1);
            continue; // sent again already, or in the polls at the top
        }
        // the last attempt failed
        for (int i = 0; i < 4 && evs.empty() && md.sent.size() == n; i++)
            mpoll(1);
        if (evs.empty() && md.sent.size() > n && md.sent.back() == f)
            fail({19}, "more than three repetitions");
        if (evs.empty())
        {
            fail({19, 21}, "no report after four failed attempts");
        }
        if (evs.size() != 1 || evs[0].kind != 'c')
            fail({19, 21}, "%d reports instead of one communication error", (int)evs.size());
        report_check(q, evs[0], 19);
        if (evs[0].val != last)
            fail({19}, "communication error %d instead of %d", evs[0].val, last);
        waiting.erase(waiting.begin());
        return;
    }
}
static void idle_checks()
{
    if (!waiting.empty())
        return;
    size_t n = md.sent.size();
    evs.clear();
    if (md.rx && one_in(2))
    {
        L("noise while the master is idle");
        if (R(2)) md.deliver(Bytes(R(9), (uint8_t)R(256)));
        if (R(2)) md.cfe();
        if (R(2)) md.c15();
        if (R(2)) md.c35();
    }
    mpoll(3);
    mtick(R(3));
    if (md.sent.size() != n || evs.size())
        fail({21, 15}, "an idle master sends or reports something");
}
static void master_start()
{
    md = Driver();
    L("master init");
    modbus_master_init(RTU, 9600, NONE);
    if (!md.c15 || !md.c35 || !md.ctx || !md.cfe)
        fail({21, 22}, "init does not set up the driver");
    waiting.clear();
    evs.clear();
    cb_requests = one_in(4);
}
static void master_restart() // init again in the middle of anything
{
    bool cb = cb_requests;
    cb_requests = false;
    if (waiting.size() && one_in(2))
    {
        mpoll(R(3));
        if (one_in(2)) md.tx_done();
        mpoll(R(3));
        mtick(one_in(2) ? R(5) : R(2000));
        if (md.rx && one_in(2)) md.deliver(Bytes(1 + R(9), (uint8_t)R(256)));
        if (one_in(3)) md.c15();
        if (one_in(3)) md.c35();
        if (one_in(6)) md.cfe();
    }
    L("master init again");
    md.pend = false; // the driver's init stops whatever was being sent
    md.sent.clear();
    waiting.clear();
    evs.clear();
    modbus_master_init(RTU, 9600, NONE);
    cb_requests = cb;
}
static void master_history()
{
    master_start();
    for (int i = 0; i < 60; i++)
    {
        if ((P == 15 || P == 20 || P == 21) && one_in(12))
            master_restart();
        int n = one_in(4) ? R(9) : 1 + R(2);
        while (n--)
            request(false);
        while (waiting.size() && !one_in(4))
            serve();
        if (one_in(4))
        {
            while (waiting.size())
                serve();
            idle_checks();
        }
    }
}

// ---------------------------------------------------------------- both, joined
static void round_trips()
{
    slave_start();
    master_start();
    cb_requests = false;
    for (int i = 0; i < 60; i++)
    {
        Req q = some_req();
        int n = n_of(q.fc);
        if (!q.valid())
            q.qty = 1 + R(spec_max_qty(q.fc));
        while ((int)q.data.size() < q.qty)
            q.data.push_back(q.fc == 15 ? R(2) : num());
        q.id = sid;
        if (R(4))
            q.adr = R(n);
        if (R(2) && q.qty <= n)
            q.adr = R(n - q.qty + 1);
        if (one_in(12))
            randomize_data();
        if (one_in(20))
            register_all(one_in(2) ? 0 : 1 << R(9));
        request_q(q, false);
        if (waiting.empty())
            continue;
        waiting.clear();
        evs.clear();
        md.sent.clear();
        sd.sent.clear();
        Snap before;
        mpoll(2);
        md.tx_done();
        mpoll(1);
        if (md.sent.size() != 1)
            fail({23}, "the request is not sent");
        L("request %s", hex(md.sent[0]).c_str());
        sd.deliver(md.sent[0]);
        sd.c15();
        sd.c35();
        spoll(2);
        if (sd.sent.size() != 1)
            fail({23}, "the slave does not answer the master's request");
        L("response %s", hex(sd.sent[0]).c_str());
        sd.tx_done();
        spoll(2);
        md.deliver(sd.sent[0]);
        md.c15();
        md.c35();
        mpoll(3);
        bool outside = q.adr + q.objs() > n, unreg = false;
        for (int k = 0; !outside && k < q.objs(); k++)
            unreg = unreg || !is_reg(q.fc, q.adr + k);
        if (outside || unreg)
        {
            if (evs.size() != 1 || evs[0].kind != 'x' || evs[0].val != (outside ? 2 : 4) || evs[0].adr != q.adr || evs[0].qty != q.objs() || evs[0].slave != sid || evs[0].fc != q.fc)
                fail({23}, "exception %d of the slave does not reach the application", outside ? 2 : 4);
            if (outside && !(before == Snap()))
                fail({23}, "a refused write changed data");
            continue;
        }
        if (q.fc > 4)
        {
            if (evs.size() != 1 || evs[0].kind != 'w' || evs[0].adr != q.adr || evs[0].qty != q.objs() || evs[0].slave != sid || evs[0].obj != obj_of(q.fc))
                fail({23}, "the write is not confirmed once");
            for (int k = 0; k < q.objs(); k++)
                if (val_of(q.fc, q.adr + k) != (q.fc == 5 || q.fc == 6 ? q.val : q.data[k]))
                    fail({23}, "object %d of the slave has value %d", q.adr + k, val_of(q.fc, q.adr + k));
            continue;
        }
        if ((int)evs.size() != q.qty)
            fail({23}, "%d of %d values delivered", (int)evs.size(), q.qty);
        std::map<int, int> got;
        for (auto &e : evs)
            if (e.kind == 'd' && e.obj == obj_of(q.fc) && e.slave == sid)
                got[e.adr] = e.val;
        for (int k = 0; k < q.qty; k++)
            if (!got.count(q.adr + k) || got[q.adr + k] != val_of(q.fc, q.adr + k))
                fail({23}, "object %d is delivered wrongly", q.adr + k);
    }
}

// ---------------------------------------------------------------- CRC and frames
static void crc_history()
{
    for (int i = 0; i < 400; i++)
    {
        int n = one_in(2) ? R(257) : one_in(2) ? R(20) : num() % 1024;
        Bytes b(n + 2), c;
        for (auto &x : b)
            x = one_in(2) ? R(256) : num();
        if (one_in(8))
            std::fill(b.begin(), b.end(), one_in(2) ? 0 : 0xFF);
        c = b;
        uint16_t r = calculate_CRC(b.data(), n), w = spec_crc(c.data(), n);
        if (r != w || b != c)
        {
            hist = "calculate_CRC(" + hex(Bytes(c.begin(), c.begin() + n)) + ")\n";
            fail({1, 2, 3}, "CRC of %d bytes is %04x instead of %04x", n, r, w);
        }
    }
    for (int i = 0; i < 400; i++)
    {
        Bytes b(256);
        for (auto &x : b)
            x = R(256);
        uint8_t len = one_in(2) ? R(256) : 250 + R(6), l0 = len;
        int id = some_id();
        Bytes c = b;
        if (len == 0)
            continue;
        modbus_ret_t r = modbus_RTU_send(b.data(), &len, id);
        hist = "modbus_RTU_send of " + hex(Bytes(c.begin(), c.begin() + l0)) + "\n";
        if (l0 <= 253)
        {
            c[0] = id;
            Bytes f = framed(Bytes(c.begin(), c.begin() + l0));
            if (r != RET_OK || len != l0 + 2 || !std::equal(f.begin(), f.end(), b.begin()))
                fail({2}, "the frame is not address, message and CRC");
            hist = "modbus_RTU_recv of " + hex(f) + "\n";
            if (modbus_RTU_recv(b.data(), len, id) != RET_OK)
                fail({2, 3}, "an intact frame is not accepted");
            Bytes d = damaged(f);
            d.resize(256);
            hist = "modbus_RTU_recv of " + hex(Bytes(d.begin(), d.begin() + len)) + "\n";
            if (modbus_RTU_recv(d.data(), len, id) == RET_OK)
                fail({3}, "a damaged frame is accepted");
            if (modbus_RTU_recv(b.data(), len, id ^ (1 + R(255))) == RET_OK)
                fail({3}, "a frame for another device is accepted");
        }
        else if (r == RET_OK)
            fail({2}, "a message that does not fit is framed");
        Bytes d(256);
        for (auto &x : d)
            x = R(256);
        int n = R(256);
        if (n && one_in(2))
        {
            Bytes f = framed(Bytes(d.begin(), d.begin() + n - (n > 2 ? 2 : 0)));
            std::copy(f.begin(), f.end(), d.begin());
        }
        d[0] = one_in(2) ? id : d[0];
        Bytes f(d.begin(), d.begin() + n);
        bool want = n >= 2 && d[0] == id && crc_ok(f);
        hist = "modbus_RTU_recv of " + hex(f) + "\n";
        if ((modbus_RTU_recv(d.data(), n, id) == RET_OK) != want)
            fail({3, want ? 2 : 3}, want ? "an intact frame is not accepted" : "a damaged or foreign frame is accepted");
    }
    hist.clear();
}
struct Kind { const char *name; void (*f)(); };
static const Kind CRC_ = {"CRC and frames", crc_history}, SL = {"slave", slave_history}, MA = {"master", master_history}, RT = {"master and slave", round_trips};
int main(int argc, char **argv)
{
    P = atoi(argv[1] + (argv[1][0] == 'C'));
    uint64_t seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]);
    std::vector<int> base = dict;
    if (argc > 4)
        if (FILE *f = fopen(argv[4], "r"))
        {
            char w[2000];
            while (fscanf(f, "%1999s", w) == 1)
            {
                if (w[0] == 'x')
                {
                    Bytes b;
                    for (char *p = w + 1; p[0] && p[1]; p += 2)
                    {
                        char t[3] = {p[0], p[1], 0};
                        b.push_back(strtol(t, 0, 16));
                    }
                    dict_frames.push_back(b);
                }
                else
                    dict.push_back(strtol(w, 0, 0) & 0xFFFF);
            }
            fclose(f);
        }
    std::vector<Kind> ks;
    switch (P)
    {
    case 1: ks = {CRC_}; break;
    case 2: case 3: ks = {CRC_, SL, MA}; break;
    case 4: case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 12: ks = {SL}; break;
    case 23: ks = {RT}; break;
    default: ks = {MA}; break;
    }
    timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long first = argc > 5 ? atol(argv[5]) : 0;
    for (long h = first;; h++)
    {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs || (argc > 5 && h > first))
        {
            printf("no failing history in %ld\n", h);
            return 0;
        }
        const Kind &k = ks[h % ks.size()];
        fflush(stdout);
        pid_t c = fork();
        if (c == 0)
        {
            itimerval it = {{0, 0}, {20, 0}};
            setitimer(ITIMER_PROF, &it, 0);
            rs = (seed * 1000003 + h) * 0x9E3779B97F4A7C15ULL + 12345;
            for (int i = 0; i < 5; i++)
                rnd();
            if (one_in(2))
                dict = base; // without the numbers of the source
            current = k.name;
            try
            {
                k.f();
            }
            catch (Diverged &)
            {
            }
            _exit(0);
        }
        int st;
        waitpid(c, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            continue;
        if (WIFSIGNALED(st))
            printf("FOUND C%02d: the library %s in a history of valid calls and events\n", P, WTERMSIG(st) == SIGPROF ? "does not return" : "crashes");
        else if (WEXITSTATUS(st) != 1)
            printf("FOUND C%02d: the sanitizer reports an invalid memory access or undefined behaviour\n", P);
        printf("rerun: sim C%02d %llu 60 DICT %ld\n", P, (unsigned long long)seed, h);
        return 1;
    }
}
