// Scenario interpreter around the real fn-log code. One forked child per scenario; every thread of a scenario is a
// vsched fiber. Only API-level observations are recorded (calls, returns, file contents, counters, datagrams, hook calls).
#include "fn_log.h"
#include "vsched.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <arpa/inet.h>
#include <ftw.h>
#include <utime.h>
#include <signal.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <algorithm>

using namespace FNLog;

// ---------------------------------------------------------------- trace buffer shared with the parent
static const size_t BUF = 24u << 20;
struct Shared { size_t len; int phase; long steps; char data[1]; };
static Shared* g_sh;
static long long g_t0;
static void raw(const std::string& s)
{
    if (g_sh->len + s.size() + 4096 > BUF - sizeof(Shared)) _exit(97);
    memcpy(g_sh->data + g_sh->len, s.data(), s.size());
    g_sh->len += s.size();
}
static std::string js(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static void ev(const std::string& body)
{
    std::string s = g_sh->len ? ",\n{" : "{";
    s += body + ",\"w\":" + std::to_string((vs::now_us() - g_t0) / 1000) + "}";
    raw(s);
}
static std::string N(long long v) { return std::to_string(v); }

// ---------------------------------------------------------------- scenario
typedef std::vector<std::string> Cmd;
struct Phase { long crash = -1; std::vector<std::vector<Cmd>> threads; };
struct Scn
{
    std::string id;
    std::map<std::string, std::string> opt;
    std::map<std::string, std::string> blob;
    std::vector<std::string> files;
    std::vector<Phase> phases;
};
static std::string unpct(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    return o;
}
static Scn* g_s;
static Logger* g_l[8];
static std::map<std::string, int> g_lines; // expected line -> id
static std::map<int, std::string> g_byid;  // id -> expected line
static const int LS = LogData::LOG_SIZE;

static std::string payload(int id, int size)
{
    std::string s = "#" + std::to_string(id) + ":";
    unsigned x = 2654435761u * (unsigned)(id + 1);
    while ((int)s.size() < size)
    {
        x = x * 1664525u + 1013904223u;
        s += (char)('!' + (x >> 24) % 90);
    }
    if (size > 0 && (int)s.size() > size) s.resize(size);
    for (auto& c : s) if (c == '%') c = '+';
    return s;
}
static std::string expected_line(const std::string& p)
{
    std::string l = p.substr(0, std::min((int)p.size(), LS - 2));
    return l + "\n";
}
static int project(const std::string& line)
{
    auto it = g_lines.find(line);
    if (it != g_lines.end()) return it->second;
    static const std::string mark = "!!!core recover!!!\n";
    if (line.size() >= mark.size() && line.compare(line.size() - mark.size(), mark.size(), mark) == 0)
    {
        // an unfinished statement: the text before the mark may be any beginning of its content; -1000000: too short to tell whose
        std::string t = line.substr(0, line.size() - mark.size());
        size_t n = 1, m = mark.size() - 1;
        // the process that recovered it died as well before it was done (the newline may be missing behind the counted length)
        while (t.size() >= m && (t.compare(t.size() - m, m, mark, 0, m) == 0 || (t.size() > m && t.compare(t.size() - m - 1, m, mark, 0, m) == 0)))
            t.resize(t.size() - m - (t.compare(t.size() - m, m, mark, 0, m) == 0 ? 0 : 1));
        if (t.empty()) return -1000000;
        if (t[0] != '#') return 0;
        while (n < t.size() && isdigit((unsigned char)t[n])) n++;
        if (n == t.size()) return n < 9 ? -1000000 : 0;
        int id = atoi(t.c_str() + 1);
        auto k = g_byid.find(id);
        if (t[n] != ':' || k == g_byid.end()) return 0;
        if (t.size() == k->second.size()) t.back() = '\n';   // the length is counted before the newline is put there
        if (k->second.compare(0, t.size(), t) != 0) return 0;
        return -1000000 - id;
    }
    return 0;
}
static std::string read_file(const std::string& p, bool& ok)
{
    std::string s;
    int fd = (int)syscall(SYS_open, p.c_str(), O_RDONLY, 0);
    ok = fd >= 0;
    if (!ok) return s;
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n);
    syscall(SYS_close, fd);
    return s;
}
static std::string ids_of(const std::string& c)
{
    std::string o = "[";
    size_t pos = 0;
    bool first = true;
    while (pos < c.size())
    {
        size_t e = c.find('\n', pos);
        int id = -1; // partial last line
        if (e != std::string::npos) { id = project(c.substr(pos, e - pos + 1)); pos = e + 1; }
        else pos = c.size();
        if (!first) o += ",";
        o += N(id);
        first = false;
    }
    return o + "]";
}
static void list_dir(const std::string& base, const std::string& rel, std::vector<std::pair<std::string, std::string>>& out)
{
    DIR* d = opendir((base + "/" + rel).c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names)
    {
        std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat((base + "/" + r).c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) { out.push_back({r + "/", ""}); list_dir(base, r, out); }
        else if (S_ISREG(st.st_mode)) { bool ok; out.push_back({r, read_file(base + "/" + r, ok)}); }
        else out.push_back({r, ""});
    }
}

// ---------------------------------------------------------------- hook and datagrams
struct HookCfg { int mode = 0; std::vector<std::array<long long, 4>> trans; };
static HookCfg g_hook;
static int g_hook_depth = 0;
static void hook(const LogData& log)
{
    std::string c(log.content_, (size_t)std::max(0, std::min(log.content_len_, LS)));
    bool z = log.content_len_ <= LS && log.content_[std::min(log.content_len_, LS - 1)] == '\0';
    int id = project(expected_line(c));
    ev("\"e\":\"H\",\"t\":" + N(vs::self()) + ",\"id\":" + N(id) + ",\"ch\":" + N(log.channel_id_) + ",\"pr\":" + N(log.priority_) +
       ",\"ca\":" + N(log.category_) + ",\"idn\":" + N(log.identify_) + ",\"z\":" + N(z));
    if (g_hook.mode == 2)
    {
        for (auto& t : g_hook.trans)
        {
            int r = TransmitChannel(*g_l[t[0]], (int)t[1], (int)t[2], t[3], log);
            ev("\"e\":\"T\",\"t\":" + N(vs::self()) + ",\"id\":" + N(id) + ",\"to\":" + N(t[1]) + ",\"ca\":" + N(t[2]) + ",\"idn\":" + N(t[3]) + ",\"r\":" + N(r));
        }
    }
}
static void on_dg(const char* ip, int port, const char* d, int n, int rcv)
{
    std::string c(d, (size_t)n);
    int id = project(c);
    ev("\"e\":\"U\",\"ip\":" + js(ip) + ",\"port\":" + N(port) + ",\"id\":" + N(id) + ",\"n\":" + N(n) + ",\"rcv\":" + N(rcv));
}

// ---------------------------------------------------------------- statements
struct Stmt { int id; int L; int begun_stops; bool acc; std::unique_ptr<LogStream> ls; };
static std::map<int, Stmt*> g_open_stmt; // by handle
static std::set<Stmt*> g_inflight;
static int g_stops_done[8];

struct alignas(16) LSBox { char mem[sizeof(LogStream)]; };

static void begin_stmt(Stmt* s, const Cmd& c, size_t k)
{
    // c[k..] : id L ch pri cat ident prefix
    s->id = atoi(c[k].c_str());
    s->L = atoi(c[k + 1].c_str());
    int ch = atoi(c[k + 2].c_str()), pri = atoi(c[k + 3].c_str()), cat = atoi(c[k + 4].c_str());
    long long idn = atoll(c[k + 5].c_str());
    unsigned prefix = (unsigned)atoi(c[k + 6].c_str());
    s->begun_stops = g_stops_done[s->L];
    s->acc = false;
    g_inflight.insert(s);
    ev("\"e\":\"B\",\"t\":" + N(vs::self()) + ",\"id\":" + N(s->id));
    s->ls.reset(new LogStream(*g_l[s->L], ch, pri, cat, idn, "a/b/c/d/file.cpp", 16, 77, "func", 4, prefix));
    s->acc = s->ls->log_data_ != nullptr;
    ev("\"e\":\"A\",\"t\":" + N(vs::self()) + ",\"id\":" + N(s->id) + ",\"acc\":" + N(s->acc));
}
static void end_stmt(Stmt* s)
{
    ev("\"e\":\"Z\",\"t\":" + N(vs::self()) + ",\"id\":" + N(s->id));
    s->ls.reset();
    g_inflight.erase(s);
    ev("\"e\":\"E\",\"t\":" + N(vs::self()) + ",\"id\":" + N(s->id));
    delete s;
}
static void put(Stmt* s, const std::string& text, int pieces)
{
    size_t n = text.size(), p = 0;
    for (int i = 0; i < pieces; i++)
    {
        size_t len = i + 1 == pieces ? n - p : n / (size_t)pieces;
        if (pieces % 2) *s->ls << text.substr(p, len);
        else s->ls->write_buffer(text.data() + p, (int)len);
        p += len;
    }
}
// A statement that still runs when its logger was stopped and is started again is a known finding (see DESIGN.md):
// a start waits here until every statement begun before the last stop returned has ended.
static void start_gate(int L)
{
    for (;;)
    {
        bool busy = false;
        for (auto* s : g_inflight) if (s->L == L && s->begun_stops < g_stops_done[L]) busy = true;
        if (!busy) return;
        vs::sleep_us(1000);
    }
}
static int g_calln = 0;
static int call_begin(const std::string& op, int L, const std::string& arg = "")
{
    int n = ++g_calln;
    ev("\"e\":\"C\",\"t\":" + N(vs::self()) + ",\"op\":\"" + op + "\",\"L\":" + N(L) + ",\"n\":" + N(n) + ",\"b\":" + js(arg));
    return n;
}
static void call_end(const std::string& op, int L, int n, int r)
{
    if (op == "stop" && r == 0) g_stops_done[L]++;
    ev("\"e\":\"R\",\"t\":" + N(vs::self()) + ",\"op\":\"" + op + "\",\"L\":" + N(L) + ",\"n\":" + N(n) + ",\"r\":" + N(r));
}

static void counters(int L)
{
    Logger& l = *g_l[L];
    std::string s = "\"e\":\"K\",\"t\":" + N(vs::self()) + ",\"L\":" + N(L) + ",\"c\":[";
    for (int c = 0; c < Logger::MAX_CHANNEL_SIZE; c++)
    {
        if (l.shm_ == nullptr || c >= l.shm_->channel_size_) break;
        if (c) s += ",";
        s += "{\"hold\":" + N(GetChannelLog(l, c, CHANNEL_LOG_HOLD)) + ",\"push\":" + N(GetChannelLog(l, c, CHANNEL_LOG_PUSH)) +
             ",\"proc\":" + N(GetChannelLog(l, c, CHANNEL_LOG_PROCESSED)) + ",\"pbytes\":" + N(GetChannelLog(l, c, CHANNEL_LOG_PROCESSED_BYTES)) +
             ",\"upd\":" + N(GetChannelLog(l, c, CHANNEL_LOG_HOTUPDATE_CHANGE)) + ",\"pri\":[";
        for (int p = 0; p < PRIORITY_MAX; p++) s += (p ? "," : "") + N(GetChannelLog(l, c, (ChannelLogEnum)(CHANNEL_LOG_PRIORITY + p)));
        s += "],\"d\":[";
        for (int d = 0; d < l.shm_->channels_[c].device_size_; d++)
        {
            if (d) s += ",";
            s += "{\"line\":" + N(GetDeviceLog(l, c, d, DEVICE_LOG_TOTAL_WRITE_LINE)) + ",\"byte\":" + N(GetDeviceLog(l, c, d, DEVICE_LOG_TOTAL_WRITE_BYTE)) +
                 ",\"lose\":" + N(GetDeviceLog(l, c, d, DEVICE_LOG_TOTAL_LOSE_LINE)) + ",\"pri\":[";
            for (int p = 0; p < PRIORITY_MAX; p++) s += (p ? "," : "") + N(GetDeviceLog(l, c, d, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + p)));
            s += "]}";
        }
        s += "]}";
    }
    ev(s + "]");
}
static std::string cfg_json(SHMLogger::Channels& chs, int size)
{
    std::string s = "\"c\":[";
    for (int c = 0; c < size && c < Logger::MAX_CHANNEL_SIZE; c++)
    {
        Channel& ch = chs[(size_t)c];
        s += std::string(c ? "," : "") + "{\"id\":" + N(ch.channel_id_) + ",\"type\":" + N(ch.channel_type_) + ",\"cfg\":[";
        for (int i = 0; i < CHANNEL_CFG_MAX_ID; i++) s += std::string(i ? "," : "") + js(N(ch.config_fields_[i]));
        s += "],\"d\":[";
        for (int d = 0; d < ch.device_size_ && d < Channel::MAX_DEVICE_SIZE; d++)
        {
            Device& dv = ch.devices_[d];
            s += std::string(d ? "," : "") + "{\"id\":" + N(dv.device_id_) + ",\"out\":" + N(dv.out_type_) + ",\"in\":" + N(dv.in_type_) +
                 ",\"file\":" + js(dv.out_file_) + ",\"path\":" + js(dv.out_path_) + ",\"cfg\":[";
            for (int i = 0; i < DEVICE_CFG_MAX_ID; i++) s += std::string(i ? "," : "") + js(N(dv.config_fields_[i]));
            s += "]}";
        }
        s += "]}";
    }
    return s + "]";
}
static void devcfg(int L, const char* what)
{
    Logger& l = *g_l[L];
    if (!l.shm_) { ev(std::string("\"e\":\"G\",\"k\":\"") + what + "\",\"t\":" + N(vs::self()) + ",\"L\":" + N(L) + ",\"c\":[]"); return; }
    ev(std::string("\"e\":\"G\",\"k\":\"") + what + "\",\"t\":" + N(vs::self()) + ",\"L\":" + N(L) + "," + cfg_json(l.shm_->channels_, l.shm_->channel_size_) +
       ",\"hot\":" + N(l.hot_update_) + ",\"name\":" + js(std::string(l.name_, (size_t)l.name_len_)) + ",\"desc\":" + js(std::string(l.desc_, (size_t)l.desc_len_)) + ",\"shm\":" + js(N(l.shm_key_)));
}

// statement content from typed pieces: s:<pct> string, z:<pct> c string, n:<int> number, u: unsigned, r:<n> run of n chars 'x', f: float ... (C16, C23)
static std::vector<std::string> elems(const std::string& v)
{
    std::vector<std::string> o;
    size_t p = 0;
    while (p < v.size())
    {
        size_t e = v.find(',', p);
        if (e == std::string::npos) e = v.size();
        o.push_back(v.substr(p, e - p));
        p = e + 1;
    }
    return o;
}
// numbers of a least width W: by the stream ('l' long long, 'U' unsigned long long, 'N' int, 'V' unsigned int) or by the formatting functions (d D x b)
template <int W> static void wide(LogStream& ls, char k, const std::string& t)
{
    char buf[200];
    memset(buf, '#', sizeof(buf));
    long long s = strtoll(t.c_str(), nullptr, 10);
    unsigned long long u = t[0] == '-' ? (unsigned long long)s : strtoull(t.c_str(), nullptr, 10);
    switch (k)
    {
    case 'l': ls.write_longlong<W>(s); break;
    case 'U': ls.write_ulonglong<W>(u); break;
    case 'N': ls.write_number<W, int>((int)s); break;
    case 'V': ls.write_number<W, unsigned int>((unsigned int)u); break;
    case 'd': ls.write_buffer(buf, write_dec_unsafe<W>(buf, s)); break;
    case 'D': ls.write_buffer(buf, write_dec_unsafe<W>(buf, u)); break;
    case 'x': ls.write_buffer(buf, write_hex_unsafe<W>(buf, u)); break;
    case 'X': ls.write_buffer(buf, write_hex_unsafe<W>(buf, s)); break;
    case 'b': ls.write_buffer(buf, write_bin_unsafe<W>(buf, u)); break;
    case 'B': ls.write_buffer(buf, write_bin_unsafe<W>(buf, s)); break;
    }
}
static void wide(LogStream& ls, char k, int w, const std::string& t)
{
    switch (w)
    {
    case 0: wide<0>(ls, k, t); break;
    case 1: wide<1>(ls, k, t); break;
    case 2: wide<2>(ls, k, t); break;
    case 3: wide<3>(ls, k, t); break;
    case 5: wide<5>(ls, k, t); break;
    case 8: wide<8>(ls, k, t); break;
    case 11: wide<11>(ls, k, t); break;
    case 16: wide<16>(ls, k, t); break;
    case 20: wide<20>(ls, k, t); break;
    case 24: wide<24>(ls, k, t); break;
    case 64: if (k == 'x' || k == 'X' || k == 'b' || k == 'B') wide<64>(ls, k, t); break;
    }
}
static void piece(LogStream& ls, const std::string& p)
{
    std::string v = p.size() > 2 ? unpct(p.substr(2)) : "";
    switch (p[0])
    {
    case 's': ls << v; break;
    case 'z': ls << v.c_str(); break;
    case 'c': ls << v[0]; break;
    case 'n': ls << (long long)strtoll(v.c_str(), nullptr, 10); break;
    case 'u': ls << (unsigned long long)strtoull(v.c_str(), nullptr, 10); break;
    case 'i': ls << (int)strtol(v.c_str(), nullptr, 10); break;
    case 'h': ls << (short)strtol(v.c_str(), nullptr, 10); break;
    case 'B': ls << (unsigned char)strtol(v.c_str(), nullptr, 10); break;
    case 'b': ls << (v == "1"); break;
    case 'N': ls << (const char*)nullptr; break;
    case 'p': ls << nullptr; break;
    case 'P': ls << (const void*)(uintptr_t)strtoull(v.c_str(), nullptr, 16); break;
    case 'd': ls << strtod(v.c_str(), nullptr); break;
    case 'g': ls << strtof(v.c_str(), nullptr); break;
    case 'r': { int k = atoi(v.c_str()); std::string x((size_t)k, 'x'); ls << x; break; }
    case 'w': ls.write_buffer(v.data(), (int)v.size()); break;
    case 'X':
    {
        static char* mem = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(mem, v.data(), v.size());
        ev("\"e\":\"AD\",\"a\":" + js(N((long long)(uintptr_t)mem)));
        ls.write_binary(mem, (int)v.size());
        break;
    }
    case 'j': ls << (unsigned int)strtoul(v.c_str(), nullptr, 10); break;
    case 'H': ls << (unsigned short)strtoul(v.c_str(), nullptr, 10); break;
    case 'y': ls << (long)strtol(v.c_str(), nullptr, 10); break;
    case 'Y': ls << (unsigned long)strtoul(v.c_str(), nullptr, 10); break;
    // containers: elements separated by commas
    case 'v': { std::vector<int> x; for (auto& e : elems(v)) x.push_back(atoi(e.c_str())); ls << x; break; }
    case 'V': { std::vector<double> x; for (auto& e : elems(v)) x.push_back(strtod(e.c_str(), nullptr)); ls << x; break; }
    case 'l': { std::list<std::string> x; for (auto& e : elems(v)) x.push_back(e); ls << x; break; }
    case 'm': { std::map<int, std::string> x; for (auto& e : elems(v)) x[atoi(e.c_str())] = "v" + e; ls << x; break; }
    case 't': { std::set<int> x; for (auto& e : elems(v)) x.insert(atoi(e.c_str())); ls << x; break; }
    case 'q': { std::deque<long long> x; for (auto& e : elems(v)) x.push_back(atoll(e.c_str())); ls << x; break; }
    case 'O': { std::unordered_map<int, int> x; for (auto& e : elems(v)) x[atoi(e.c_str())] = 7; ls << x; break; }
    case 'Q': { std::unordered_set<int> x; for (auto& e : elems(v)) x.insert(atoi(e.c_str())); ls << x; break; }
    case 'L': { std::vector<std::vector<int>> x; for (auto& e : elems(v)) x.push_back(std::vector<int>((size_t)atoi(e.c_str()), 5)); ls << x; break; }
    case 'A': ls << LogBlankAlign<40>(); break;
    case 'a': ls << LogBlankAlign<200>(); break;
    case 'K': ls << LogPercent(strtod(v.c_str(), nullptr)); break;
    case 'D': { size_t k = v.find('.'); ls << LogTimestamp(strtoll(v.c_str(), nullptr, 10), k == std::string::npos ? 0 : atoi(v.c_str() + k + 1)); break; }
    case 'T': ls << LogTimestamp(strtoll(v.c_str(), nullptr, 10)); break;
    case 'o': ls << std::make_pair(1, v); break;
    case 'k': ls.set_category(atoi(v.c_str())); break;
    case 'W': { size_t k = v.find('.'); wide(ls, v[0], atoi(v.c_str() + 1), v.substr(k + 1)); break; }   // W:<function><width>.<number>
    }
}
// all values (ms) the clock had since it was a
static std::string times(long long a, size_t mark)
{
    std::set<long long> v = {a / 1000};
    for (long long t : vs::clock_since(mark)) v.insert(t / 1000);
    std::string o;
    for (long long t : v) o += (o.empty() ? "[" : ",") + N(t);
    return o + "]";
}
#define DEFL 7 /* logger 7 is the default logger */
static void exec_cmd(const Cmd& c)
{
    const std::string& o = c[0];
    auto I = [&](size_t k) { return k < c.size() ? atoi(c[k].c_str()) : 0; };
    auto LLv = [&](size_t k) { return k < c.size() ? atoll(c[k].c_str()) : 0LL; };
    if (o == "log")
    {
        // log id L ch pri cat ident prefix size pieces
        Stmt* s = new Stmt;
        begin_stmt(s, c, 1);
        if (s->acc) put(s, payload(s->id, I(8)), std::max(1, I(9)));
        end_stmt(s);
    }
    else if (o == "open") { Stmt* s = new Stmt; begin_stmt(s, c, 2); g_open_stmt[I(1)] = s; }
    else if (o == "put") { Stmt* s = g_open_stmt[I(1)]; if (s->acc) put(s, payload(s->id, I(2)), std::max(1, I(3))); }
    else if (o == "close") { Stmt* s = g_open_stmt[I(1)]; g_open_stmt.erase(I(1)); end_stmt(s); }
    else if (o == "pieces")
    {
        // pieces id L ch pri cat ident prefix p1 p2 ...
        Stmt* s = new Stmt;
        begin_stmt(s, c, 1);
        for (size_t i = 8; i < c.size(); i++) piece(*s->ls, c[i]);
        end_stmt(s);
    }
    else if (o == "putp") { Stmt* s = g_open_stmt[I(1)]; for (size_t i = 2; i < c.size(); i++) piece(*s->ls, c[i]); }
    else if (o == "sopen")
    {
        // sopen h L ch pri flags line file func : statement with explicit source position; no file or function if they are "-"
        Stmt* s = new Stmt;
        static std::map<int, std::string> keep;
        std::string& f = keep[I(1) * 2];
        std::string& fn = keep[I(1) * 2 + 1];
        f = unpct(c[7]);
        fn = unpct(c[8]);
        s->id = 0;
        s->L = I(2);
        s->begun_stops = g_stops_done[s->L];
        g_inflight.insert(s);
        g_open_stmt[I(1)] = s;
        long long a = vs::now_us();
        size_t ck = vs::clock_mark();
        s->ls.reset(new LogStream(*g_l[s->L], I(3), I(4), 0, 0, f == "-" ? (I(6) % 2 ? nullptr : "") : f.c_str(), f == "-" ? 0 : (int)f.size(), I(6),
                                  fn == "-" ? (I(6) % 2 ? nullptr : "") : fn.c_str(), fn == "-" ? 0 : (int)fn.size(), (unsigned)I(5)));
        s->acc = s->ls->log_data_ != nullptr;
        ev("\"e\":\"SO\",\"h\":" + c[1] + ",\"acc\":" + N(s->acc) + ",\"dt\":" + N(vs::self()) + ",\"t\":" + times(a, ck));
    }
    else if (o == "sput")
    {
        Stmt* s = g_open_stmt[I(1)];
        for (size_t i = 2; i < c.size(); i++)
            if (c[i][0] == 'M') s->ls.reset(new LogStream(std::move(*s->ls)));
            else piece(*s->ls, c[i]);
    }
    else if (o == "sclose") { Stmt* s = g_open_stmt[I(1)]; g_open_stmt.erase(I(1)); s->ls.reset(); g_inflight.erase(s); delete s; }
    else if (o == "fe")
    {
        // fe kind ch cat ident text : front ends of the default logger
        int ch = I(2), ca = I(3);
        long long idn = LLv(4);
        std::string t = unpct(c[5]);
        int k = I(1), ln = 0;
        long long t0 = vs::now_us();
        size_t ck = vs::clock_mark();
        switch (k)
        {
        case 0: ln = __LINE__; LogInfoStream(ch, ca, idn) << t; break;
        case 1: ln = __LINE__; LogInfoPack(ch, ca, idn, t); break;
        case 2: ln = __LINE__; LOG_INFO(ch, ca, idn, t); break;
        case 3: ln = __LINE__; LOGFMT_INFO(ch, ca, idn, "%s", t.c_str()); break;
        case 4: ln = __LINE__; LOG_FORMAT(ch, PRIORITY_INFO, ca, idn, LOG_PREFIX_NULL, "%s", t.c_str()); break;
        case 5: ln = __LINE__; LOG_STREAM_DEFAULT_LOGGER(ch, PRIORITY_INFO, ca, idn, LOG_PREFIX_NULL) << t; break;
        case 6: ln = __LINE__; LogTemplatePack(LOG_STREAM_DEFAULT_LOGGER(ch, PRIORITY_INFO, ca, idn, LOG_PREFIX_NULL), t, 1, 'c'); break;
        case 7: ln = __LINE__; LOG_FORMAT(ch, PRIORITY_INFO, ca, idn, LOG_PREFIX_NULL, "%s%d", t.c_str(), 12345); break;
        case 8: ln = __LINE__; LogTraceStream(ch, ca, idn) << t; break;
        case 9: ln = __LINE__; LogDebugStream(ch, ca, idn) << t; break;
        case 10: ln = __LINE__; LogWarnStream(ch, ca, idn) << t; break;
        case 11: ln = __LINE__; LogErrorStream(ch, ca, idn) << t; break;
        case 12: ln = __LINE__; LogAlarmStream(ch, ca, idn) << t; break;
        case 13: ln = __LINE__; LogFatalStream(ch, ca, idn) << t; break;
        case 14: ln = __LINE__; LOGFMT_TRACE(ch, ca, idn, "%s", t.c_str()); break;
        case 15: ln = __LINE__; LOGFMT_DEBUG(ch, ca, idn, "%s", t.c_str()); break;
        case 16: ln = __LINE__; LOGFMT_WARN(ch, ca, idn, "%s", t.c_str()); break;
        case 17: ln = __LINE__; LOGFMT_ERROR(ch, ca, idn, "%s", t.c_str()); break;
        case 18: ln = __LINE__; LOGFMT_ALARM(ch, ca, idn, "%s", t.c_str()); break;
        case 19: ln = __LINE__; LOGFMT_FATAL(ch, ca, idn, "%s", t.c_str()); break;
        case 20: ln = __LINE__; LOG_TRACE(ch, ca, idn, t); break;
        case 21: ln = __LINE__; LOG_DEBUG(ch, ca, idn, t); break;
        case 22: ln = __LINE__; LOG_WARN(ch, ca, idn, t); break;
        case 23: ln = __LINE__; LOG_ERROR(ch, ca, idn, t); break;
        case 24: ln = __LINE__; LOG_ALARM(ch, ca, idn, t); break;
        case 25: ln = __LINE__; LOG_FATAL(ch, ca, idn, t); break;
        case 26: ln = __LINE__; LogTracePack(ch, ca, idn, t); break;
        case 27: ln = __LINE__; LogDebugPack(ch, ca, idn, t); break;
        case 28: ln = __LINE__; LogWarnPack(ch, ca, idn, t); break;
        case 29: ln = __LINE__; LogErrorPack(ch, ca, idn, t); break;
        case 30: ln = __LINE__; LogAlarmPack(ch, ca, idn, t); break;
        case 31: ln = __LINE__; LogFatalPack(ch, ca, idn, t); break;
        case 32: ln = __LINE__; LOGFMT_INFO(ch, ca, idn, "%d|%s|%5.2f|%c", -77, t.c_str(), 3.14159, 'q'); break;
        case 33: ln = __LINE__; LogInfoPack(ch, ca, idn, t, "|", 12345, '|', true, "|", (const char*)nullptr); break;
        case 34: ln = __LINE__; LOG_INFO(ch, ca, idn, t << 42 << "." << -1); break;
        case 35: ln = __LINE__; LOGI(t); break;
        case 36: ln = __LINE__; LOGFMTW("%s", t.c_str()); break;
        case 37: ln = __LINE__; LogAlarm() << t; break;
        case 38: ln = __LINE__; PackFatal(t, 1); break;
        case 39: ln = __LINE__; { if (ch) LOGFMTE("%s", t.c_str()); else LOGE(t); } break;
        }
        ev("\"e\":\"SF\",\"k\":" + c[1] + ",\"line\":" + N(ln) + ",\"file\":" + js(__FILE__) + ",\"func\":" + js(__FUNCTION__) +
           ",\"dt\":" + N(vs::self()) + ",\"t\":" + times(t0, ck));
    }
    else if (o == "new")
    {
        int L = I(1);
        g_l[L] = L == DEFL ? &GetDefaultLogger() : new Logger();
        vs::add_range(g_l[L], sizeof(Logger));
    }
    else if (o == "del")
    {
        int n = call_begin("del", I(1));
        delete g_l[I(1)];
        g_l[I(1)] = nullptr;
        call_end("del", I(1), n, 0);
    }
    else if (o == "load" || o == "parse" || o == "init" || o == "initf" || o == "start" || o == "stop")
    {
        int L = I(1), r = -1;
        if (o == "load" || o == "parse" || o == "start") start_gate(L);
        int n = call_begin(o, L, c.size() > 2 ? c[2] : "");
        if (o == "load") r = LoadAndStartLogger(*g_l[L], c[2]);
        if (o == "parse") r = ParseAndStartLogger(*g_l[L], g_s->blob[c[2]]);
        if (o == "init") r = InitFromYMAL(*g_l[L], g_s->blob[c[2]], c.size() > 3 ? c[3] : "");
        if (o == "initf") r = InitFromYMALFile(*g_l[L], c[2]);
        if (o == "start") r = StartLogger(*g_l[L]);
        if (o == "stop") r = StopLogger(*g_l[L]);
        call_end(o, L, n, r);
    }
    else if (o == "lex")
    {
        std::unique_ptr<LexState> ls(new LexState);
        std::string text = g_s->blob[c[1]];
        int r = ParseLogger(*ls, text);
        ev("\"e\":\"L\",\"b\":" + js(c[1]) + ",\"r\":" + N(r) + ",\"text\":" + js(text) + ",\"cs\":" + N(ls->channel_size_) +
           (r == 0 ? "," + cfg_json(ls->channels_, ls->channel_size_) + ",\"hot\":" + N(ls->hot_update_) + ",\"name\":" + js(std::string(ls->name_, (size_t)ls->name_len_)) +
            ",\"desc\":" + js(std::string(ls->desc_, (size_t)ls->desc_len_)) + ",\"shm\":" + js(N(ls->shm_key_)) : ""));
    }
    else if (o == "setc") { ev("\"e\":\"X\",\"a\":[\"setc\"," + c[1] + "," + c[2] + "," + c[3] + "," + js(c[4]) + "]"); SetChannelConfig(*g_l[I(1)], I(2), (ChannelConfigEnum)I(3), LLv(4)); ev("\"e\":\"Y\",\"t\":" + N(vs::self())); }
    else if (o == "setd") { ev("\"e\":\"X\",\"a\":[\"setd\"," + c[1] + "," + c[2] + "," + c[3] + "," + c[4] + "," + js(c[5]) + "]"); SetDeviceConfig(*g_l[I(1)], I(2), I(3), (DeviceConfigEnum)I(4), LLv(5)); ev("\"e\":\"Y\",\"t\":" + N(vs::self())); }
    else if (o == "bsetc") { ev("\"e\":\"X\",\"a\":[\"bsetc\"," + c[1] + "," + c[2] + "," + js(c[3]) + "]"); BatchSetChannelConfig(*g_l[I(1)], (ChannelConfigEnum)I(2), LLv(3)); ev("\"e\":\"Y\",\"t\":" + N(vs::self())); }
    else if (o == "bsetd") { ev("\"e\":\"X\",\"a\":[\"bsetd\"," + c[1] + "," + c[2] + "," + c[3] + "," + js(c[4]) + "]"); BatchSetDeviceConfig(*g_l[I(1)], (DeviceOutType)I(2), (DeviceConfigEnum)I(3), LLv(4)); ev("\"e\":\"Y\",\"t\":" + N(vs::self())); }
    else if (o == "nset")
    {
        // named setters of fn_log.h: nset L kind args
        Logger& l = *g_l[I(1)];
        ev("\"e\":\"X\",\"a\":[\"nset\"," + c[1] + "," + c[2] + "," + N(I(3)) + "," + N(I(4)) + "]");
        switch (I(2))
        {
        case 0: EnableAllFileDevice(l, I(3) != 0); break;
        case 1: EnableAllScreenDevice(l, I(3) != 0); break;
        case 2: EnableAllUDPDevice(l, I(3) != 0); break;
        case 3: SetAllChannelPriority(l, (LogPriority)I(3)); break;
        case 4: SetAllFilePriority(l, (LogPriority)I(3)); break;
        case 5: SetAllScreenPriority(l, (LogPriority)I(3)); break;
        case 6: SetAllUDPPriority(l, (LogPriority)I(3)); break;
        case 7: SetAllChannelCategory(l, I(3), I(4)); break;
        case 8: SetAllFilePriority(l, I(3), I(4)); break; // category range of file devices
        case 9: SetAllScreenCategory(l, I(3), I(4)); break;
        case 10: SetAllUDPCategory(l, I(3), I(4)); break;
        case 11: SetAllFileLimitSize(l, I(3)); break;
        case 12: SetAllFileRollbackCount(l, I(3)); break;
        }
        ev("\"e\":\"Y\",\"t\":" + N(vs::self()));
    }
    else if (o == "getc")
    {
        volatile long long x = GetChannelLog(*g_l[I(1)], I(2), (ChannelLogEnum)I(3));
        x = GetDeviceLog(*g_l[I(1)], I(2), I(3), DEVICE_LOG_TOTAL_WRITE_LINE);
        x = GetDeviceConfig(*g_l[I(1)], I(2), I(3), DEVICE_CFG_PRIORITY);
        (void)x;
    }
    else if (o == "gdc")
    {
        long long v = GetDeviceConfig(*g_l[I(1)], I(2), I(3), (DeviceConfigEnum)I(4));
        ev("\"e\":\"Q\",\"a\":[" + c[1] + "," + c[2] + "," + c[3] + "," + c[4] + "],\"v\":" + js(N(v)));
    }
    else if (o == "sleep") vs::sleep_us((long)LLv(1));
    else if (o == "idle") { vs::fair(true); vs::sleep_us((long)LLv(1)); vs::fair(false); ev("\"e\":\"I\",\"t\":" + N(vs::self()) + ",\"us\":" + c[1]); }
    else if (o == "yield") { for (int i = 0; i < std::max(1, I(1)); i++) vs::yield(); }
    else if (o == "sig") { ev("\"e\":\"X\",\"a\":[\"sig\"," + js(c[1]) + "]"); g_s->opt["sig:" + c[1]] = "1"; }
    else if (o == "wait") { while (!g_s->opt.count("sig:" + c[1])) vs::sleep_us(500); }
    else if (o == "snap")
    {
        std::string s = "\"e\":\"S\",\"t\":" + N(vs::self()) + ",\"f\":[";
        for (size_t i = 0; i < g_s->files.size(); i++)
        {
            bool ok;
            s += (i ? "," : "") + ids_of(read_file(g_s->files[i], ok));
        }
        s += "]";
        if (g_s->opt.count("screen"))
        {
            // what is on the screen: [id, colour before, colour closed] per line
            bool ok;
            fflush(stdout);
            std::string t = read_file("../" + g_s->opt["_out"], ok), o;
            size_t p = 0;
            while (p < t.size())
            {
                std::string col;
                while (p + 1 < t.size() && t[p] == '\033' && t[p + 1] == '[')
                {
                    size_t m = t.find('m', p);
                    if (m == std::string::npos) break;
                    col += t.substr(p + 2, m - p - 1);
                    p = m + 1;
                }
                size_t e = t.find('\n', p);
                int id = -1;
                if (e != std::string::npos) { id = project(t.substr(p, e - p + 1)); p = e + 1; }
                else p = t.size();
                bool closed = t.compare(p, 4, "\033[0m") == 0;
                if (closed && !col.empty()) p += 4;
                o += std::string(o.empty() ? "" : ",") + "[" + N(id) + "," + js(col) + "," + N(closed && !col.empty()) + "]";
            }
            s += ",\"o\":[" + o + "]";
        }
        ev(s);
    }
    else if (o == "screen")
    {
        bool ok;
        fflush(stdout);
        ev("\"e\":\"W\",\"txt\":" + js(read_file("../" + g_s->opt["_out"], ok)));
    }
    else if (o == "dump")
    {
        // raw directory listing with contents below a directory
        std::vector<std::pair<std::string, std::string>> out;
        list_dir(c[1], "", out);
        std::string s = "\"e\":\"D\",\"files\":[";
        for (size_t i = 0; i < out.size(); i++) s += std::string(i ? "," : "") + "[" + js(out[i].first) + "," + js(out[i].second) + "]";
        ev(s + "]");
    }
    else if (o == "ls")
    {
        // listing with contents projected to ids
        std::vector<std::pair<std::string, std::string>> out;
        list_dir(c[1], "", out);
        std::string s = "\"e\":\"D\",\"files\":[";
        for (size_t i = 0; i < out.size(); i++) s += std::string(i ? "," : "") + "{\"p\":" + js(out[i].first) + ",\"l\":" + ids_of(out[i].second) + ",\"n\":" + N((long long)out[i].second.size()) + "}";
        ev(s + "]");
    }
    else if (o == "cnt") counters(I(1));
    else if (o == "cfg") devcfg(I(1), c.size() > 2 ? c[2].c_str() : "");
    else if (o == "hook")
    {
        // hook off | hook rec | hook trans L ch cat idn [L ch cat idn]...
        ev("\"e\":\"X\",\"a\":[\"hook\"," + js(c[1]) + "]");
        g_hook.trans.clear();
        g_hook.mode = c[1] == "off" ? 0 : c[1] == "rec" ? 1 : 2;
        for (size_t i = 2; i + 3 < c.size(); i += 4) g_hook.trans.push_back({LLv(i), LLv(i + 1), LLv(i + 2), LLv(i + 3)});
        SetVirtualDevice(g_hook.mode ? hook : nullptr);
    }
    else if (o == "wf")
    {
        // wf path blob mtime_rel_seconds (0: now)
        std::string tmp = c[1] + ".tmp~";
        int fd = (int)syscall(SYS_open, tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        const std::string& b = g_s->blob[c[2]];
        size_t p = 0;
        while (p < b.size()) { ssize_t n = write(fd, b.data() + p, b.size() - p); if (n <= 0) break; p += (size_t)n; }
        syscall(SYS_close, fd);
        struct utimbuf ub;
        ub.actime = ub.modtime = (time_t)(c.size() > 3 && LLv(3) ? g_t0 / 1000000 + LLv(3) : vs::now_us() / 1000000);
        utime(tmp.c_str(), &ub);
        syscall(SYS_rename, tmp.c_str(), c[1].c_str());
        ev("\"e\":\"F\",\"op\":\"wf\",\"p\":" + js(c[1]) + ",\"b\":" + js(c[2]));
    }
    else if (o == "rm") { unlink(c[1].c_str()); rmdir(c[1].c_str()); ev("\"e\":\"F\",\"op\":\"rm\",\"p\":" + js(c[1])); }
    else if (o == "mkdir") { syscall(SYS_mkdir, c[1].c_str(), 0755); }
    else if (o == "ln") { unlink(c[2].c_str()); if (symlink(c[1].c_str(), c[2].c_str())) {} }
    else if (o == "time") vs::set_now_us(g_t0 + LLv(1));
    else if (o == "adv") vs::advance_us(LLv(1));
    else if (o == "tz") { setenv("TZ", c[1].c_str(), 1); tzset(); }
    else if (o == "fault") { vs::add_fault({c[1], c[2] == "-" ? "" : c[2], I(3), I(4), I(5)}); ev("\"e\":\"F\",\"op\":\"fault\",\"p\":" + js(c[1] + " " + c[2])); }
    else if (o == "nofault") { vs::clear_faults(); ev("\"e\":\"F\",\"op\":\"nofault\",\"p\":\"\""); }
    else if (o == "udpin")
    {
        const std::string& b = g_s->blob[c[3]];
        int n = vs::udp_inject(inet_addr(c[1].c_str()), htons((unsigned short)I(2)), b.data(), (int)b.size());
        ev("\"e\":\"V\",\"b\":" + js(c[3]) + ",\"port\":" + c[2] + ",\"n\":" + N(n));
    }
    else if (o == "note") ev("\"e\":\"X\",\"a\":[\"note\"," + js(c[1]) + "]");
    else if (o == "crash") vs::crash_now();
    else if (o == "throw") abort();
    else { ev("\"e\":\"BAD\",\"c\":" + js(o)); }
}
struct ThreadArg { std::vector<Cmd>* cmds; };
static void thread_main(void* a)
{
    for (auto& c : *((ThreadArg*)a)->cmds) exec_cmd(c);
}

static void run_scenario(Scn& s)
{
    g_s = &s;
    auto opt = [&](const char* k, long long d) { auto it = s.opt.find(k); return it == s.opt.end() ? d : atoll(it->second.c_str()); };
    vs::Opts o;
    o.seed = (uint64_t)opt("seed", 1);
    o.strat = (int)opt("strat", 0);
    o.p_switch = (int)opt("p_switch", 300);
    o.p_plain = (int)opt("p_plain", 100);
    o.p_early = (int)opt("p_early", 0);
    o.pct_depth = (int)opt("pct", 3);
    o.est = opt("est", 3000);
    o.stalls = (int)opt("stalls", 2);
    o.stall_steps = opt("stall_steps", 400);
    o.stall_us = opt("stall_us", 200000);
    o.p_born = (int)opt("p_born", 0);
    o.lim_fair = opt("lim_fair", 400000);
    o.lim_stuck = opt("lim_stuck", 1200000);
    if (s.opt.count("pre"))
    {
        const char* p = s.opt["pre"].c_str();
        while (*p)
        {
            char* e;
            long st = strtol(p, &e, 10);
            if (*e != ':') break;
            int tg = (int)strtol(e + 1, &e, 10);
            o.pre.push_back({st, tg});
            p = *e == ',' ? e + 1 : e;
        }
    }
    g_t0 = opt("t0", 1700000000) * 1000000LL;
    vs::set_now_us(g_t0);
    setenv("TZ", s.opt.count("tz") ? s.opt["tz"].c_str() : "UTC", 1);
    tzset();
    vs::g_unbuffered = opt("unbuf", 0) != 0;
    vs::g_on_datagram = on_dg;
    vs::reg_new_range(sizeof(SHMLogger));
    for (auto& ph : s.phases)
        for (auto& th : ph.threads)
            for (auto& c : th)
            {
                if (c[0] == "log") g_lines[expected_line(payload(atoi(c[1].c_str()), atoi(c[8].c_str())))] = atoi(c[1].c_str());
            }
    for (auto& kv : s.blob)
        if (kv.first.size() > 4 && kv.first.compare(0, 4, "line") == 0) g_lines[kv.second] = atoi(kv.first.c_str() + 4);
    // open/put pairs: the content of an open statement is payload(id, size)
    for (auto& ph : s.phases)
        for (auto& th : ph.threads)
        {
            std::map<std::string, std::string> h;
            for (auto& c : th)
            {
                if (c[0] == "open") h[c[1]] = c[2];
                if (c[0] == "put") g_lines[expected_line(payload(atoi(h[c[1]].c_str()), atoi(c[2].c_str())))] = atoi(h[c[1]].c_str());
            }
        }
    for (auto& kv : g_lines) g_byid[kv.second] = kv.first;
    if (opt("deflogger", 0)) { g_l[DEFL] = &GetDefaultLogger(); vs::add_range(g_l[DEFL], sizeof(Logger)); }
    if (opt("ps", 0))
    {
        char pid[32];
        snprintf(pid, sizeof pid, "%06d", (int)getpid());
        ev("\"e\":\"PS\",\"pid\":" + js(pid));
    }
    const char* names[] = {"ok", "deadlock", "stuck", "crash"};
    for (size_t p = 0; p < s.phases.size(); p++)
    {
        Phase& ph = s.phases[p];
        o.crash_step = ph.crash;
        o.seed = (uint64_t)opt("seed", 1) + p * 7919;
        vs::configure(o);
        vs::set_enabled(ph.threads.size() > 1 || ph.crash >= 0 || opt("yield1", 0));
        std::vector<ThreadArg> args(ph.threads.size());
        for (size_t i = 0; i < ph.threads.size(); i++) args[i].cmds = &ph.threads[i];
        for (size_t i = 0; i < ph.threads.size(); i++) vs::spawn(thread_main, &args[i], true);
        vs::Why w = vs::run();
        g_sh->steps += vs::steps();
        if (w == vs::CRASHED)
        {
            ev("\"e\":\"CRASH\",\"st\":" + N(vs::steps()));
            vs::abandon_all();
            vs::env_crash();
            for (auto& l : g_l) l = nullptr; // the logger objects of the dead process are never touched again
            g_inflight.clear();
            g_open_stmt.clear();
            SetVirtualDevice(nullptr);
            memset(g_stops_done, 0, sizeof g_stops_done);
            continue;
        }
        if (w != vs::DONE)
        {
            ev(std::string("\"e\":\"END\",\"why\":\"") + names[w] + "\",\"d\":" + js(vs::describe()));
            return;
        }
        ev("\"e\":\"PH\",\"p\":" + N((long long)p) + ",\"st\":" + N(vs::steps()));
    }
    ev("\"e\":\"END\",\"why\":\"ok\",\"d\":\"\"");
}

static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void rm_tree(const std::string& p) { nftw(p.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS); }

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    vs::prepare();
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "wb");
    std::string root = argv[3];
    int tmo = argc > 4 ? atoi(argv[4]) : 30;
    long deadline = argc > 5 ? vs::real_ms() + atol(argv[5]) : 0;
    if (!in || !out) return 2;
    g_sh = (Shared*)mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::string line;
    std::unique_ptr<Scn> s;
    int k = 0;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        Cmd c;
        size_t p = 0;
        while (p < line.size())
        {
            size_t e = line.find(' ', p);
            if (e == std::string::npos) e = line.size();
            if (e > p) c.push_back(line.substr(p, e - p));
            p = e + 1;
        }
        if (c[0] == "S") { s.reset(new Scn); s->id = c[1]; continue; }
        if (c[0] == "o") { s->opt[c[1]] = c.size() > 2 ? c[2] : ""; continue; }
        if (c[0] == "b") { s->blob[c[1]] = c.size() > 2 ? unpct(c[2]) : ""; continue; }
        if (c[0] == "f") { s->files.push_back(c[1]); continue; }
        if (c[0] == "P") { s->phases.emplace_back(); if (c.size() > 1) s->phases.back().crash = atol(c[1].c_str()); continue; }
        if (c[0] == "T") { s->phases.back().threads.emplace_back(); continue; }
        if (c[0] != "E") { s->phases.back().threads.back().push_back(c); continue; }
        if (deadline && vs::real_ms() > deadline) break;
        // run it
        g_sh->len = 0;
        g_sh->steps = 0;
        std::string name = "s" + std::to_string(k++);
        std::string dir = root + "/" + name;
        mkdir(dir.c_str(), 0755);
        s->opt["_out"] = name + ".out";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            if (chdir(dir.c_str()) != 0) _exit(99);
            int fd = ::open((dir + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
            dup2(fd, 1);
            signal(SIGPIPE, SIG_IGN);
            alarm((unsigned)tmo);
            run_scenario(*s);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::string head = "{\"id\":" + js(s->id) + ",\"steps\":" + N(g_sh->steps) + ",\"ev\":[\n";
        fwrite(head.data(), 1, head.size(), out);
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)
        {
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "signal" + N(WTERMSIG(st))) : "exit" + N(WEXITSTATUS(st));
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97)
            {
                // it does not stop doing things: only how it began is of interest
                size_t k = 256u << 10;
                while (k > 0 && g_sh->data[k] != '\n') k--;
                g_sh->len = k > 0 ? k - 1 : 0;
            }
            std::string e = std::string(g_sh->len ? ",\n" : "") + "{\"e\":\"END\",\"why\":" + js(why) + ",\"d\":\"\",\"w\":0}";
            memcpy(g_sh->data + g_sh->len, e.data(), e.size());
            g_sh->len += e.size();
        }
        fwrite(g_sh->data, 1, g_sh->len, out);
        fwrite("]}\n", 1, 3, out);
        fwrite("\x1e\n", 1, 2, out); // record separator
        rm_tree(dir);
        ::unlink((dir + ".out").c_str());
    }
    fclose(out);
    return 0;
}
