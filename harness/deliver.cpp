// P04: the delivery of the source bytes is irrelevant.  P05: encodings, byte-order marks, line endings.
//   --opt set=P04 | P05
#include "mc.hpp"
#include "obs.hpp"
#include "enc.hpp"
#include <openssl/sha.h>
#include <sys/stat.h>

using enc::Text;
typedef std::vector<std::string> VS;

// ---- the environment: what each read returns -----------------------------------------------
// one source at a time: bytes, position, and a plan: number of bytes of the k-th read (0: all asked for)
static struct Src { std::string b; size_t pos = 0; std::vector<int> plan; size_t k = 0; int watched = -1; int reads = 0; bool closed = false; int closes = 0; } S;

static size_t next_read(size_t len) {
    size_t left = S.b.size() - S.pos;
    size_t n = std::min(len, left);
    if (n && S.k < S.plan.size()) { int p = S.plan[S.k++]; if (p) n = std::min<size_t>(n, (size_t) p); }
    ++S.reads;
    return n;
}
static ssize_t io_read(void*, void* buf, size_t len) { size_t n = next_read(len); memcpy(buf, S.b.data() + S.pos, n); S.pos += n; return (ssize_t) n; }
static int io_close(void*) { ++S.closes; return 0; }

extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __wrap_read(int fd, void* buf, size_t len) {
    if (S.watched < 0 || fd < 0) return __real_read(fd, buf, len);
    struct stat st; static dev_t dev; static ino_t ino;
    (void) st; (void) dev; (void) ino;
    size_t n = next_read(len);
    ssize_t r = n ? __real_read(fd, buf, n) : 0;
    if (r > 0) S.pos += (size_t) r;
    return r;
}
static ssize_t cookie_read(void*, char* buf, size_t len) { return io_read(nullptr, buf, len); }

static const char* TMPF() { static char p[64]; if (!p[0]) snprintf(p, sizeof p, "/tmp/mc-deliver-%d.src", getpid()); return p; }

struct Obs { int rc; std::string o; std::string hash; int loc; std::string text; bool wf; std::string xml; };

enum { MEM, IO, FD, FILE_, FNAME, NCH };
static const char* CHN[] = {"memory", "io", "fd", "FILE", "filename"};

static Obs parse(int channel, const std::string& bytes, const std::string& uenc, const std::string& aenc, size_t opts, const std::vector<int>& plan, bool encmeta = true) {
    sml::Archive a(srcml_archive_create());
    srcml_archive_set_language(a.get(), "C++");
    if (aenc.size()) srcml_archive_set_src_encoding(a.get(), aenc.c_str());
    if (opts) srcml_archive_enable_option(a.get(), opts);
    sml::Unit u(srcml_unit_create(a.get()));
    if (uenc.size()) srcml_unit_set_src_encoding(u.get(), uenc.c_str());
    S = Src(); S.b = bytes; S.plan = plan;
    Obs r;
    switch (channel) {
    case MEM: r.rc = srcml_unit_parse_memory(u.get(), bytes.data(), bytes.size()); break;
    case IO: r.rc = srcml_unit_parse_io(u.get(), &S, io_read, io_close); break;
    case FILE_: { cookie_io_functions_t f = {cookie_read, nullptr, nullptr, nullptr}; FILE* p = fopencookie(nullptr, "r", f); setvbuf(p, nullptr, _IONBF, 0);
                  r.rc = srcml_unit_parse_FILE(u.get(), p); fclose(p); break; }
    default: {
        int w = open(TMPF(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (w < 0 || write(w, bytes.data(), bytes.size()) != (ssize_t) bytes.size()) _exit(98);
        close(w);
        if (channel == FD) { int fd = open(TMPF(), O_RDONLY); S.watched = fd; r.rc = srcml_unit_parse_fd(u.get(), fd); S.watched = -1; close(fd); }
        else { S.watched = 0; r.rc = srcml_unit_parse_filename(u.get(), TMPF()); S.watched = -1; }
        unlink(TMPF());
    } }
    mc::step(S.reads + 1);
    r.loc = -1; r.wf = false;
    if (r.rc == SRCML_STATUS_OK) {
        r.o = sml::obs_unit(u.get(), encmeta);
        r.hash = sml::s(srcml_unit_get_hash(u.get()));
        r.loc = srcml_unit_get_loc(u.get());
        r.xml = sml::s(srcml_unit_get_srcml_outer(u.get()));
        sml::Xml x = sml::scan(r.xml);
        r.wf = x.ok();
        r.text = sml::text_of(x);
    }
    return r;
}
static std::string sha1(const std::string& b) {
    unsigned char d[20]; SHA1((const unsigned char*) b.data(), b.size(), d);
    std::string o; char h[3]; for (unsigned char c : d) { snprintf(h, 3, "%02x", c); o += h; } return o;
}
static const unsigned PIECES[] = {'a', '\n', '\r', 0xE9, 0x20AC, 0x1F600, '/', '*', ';'};
static std::string bom(const std::string& e) {
    if (e == "UTF-8") return "\xEF\xBB\xBF"; if (e == "UTF-16LE") return "\xFF\xFE"; if (e == "UTF-16BE") return "\xFE\xFF";
    if (e == "UTF-32LE") return std::string("\xFF\xFE\0\0", 4); if (e == "UTF-32BE") return std::string("\0\0\xFE\xFF", 4);
    return "";
}
struct Form { std::string coding, stated; bool bom; };       // bytes are in `coding`, the unit says `stated` ("" nothing)
static const std::vector<Form> FORMS = {{"UTF-8", "UTF-8", false}, {"ISO-8859-1", "", false}, {"UTF-8", "", true}, {"UTF-8", "UTF-8", true}, {"UTF-16LE", "", true}, {"UTF-16BE", "", true},
    {"UTF-16LE", "UTF-16", true}, {"UTF-16LE", "UTF-16LE", false}, {"UTF-16BE", "UTF-16BE", false}, {"UTF-32LE", "", true}, {"UTF-32BE", "", true}, {"UTF-32LE", "UTF-32LE", false}, {"windows-1252", "windows-1252", false}};

static std::string name(const Form& f) { return f.coding + " stated " + (f.stated.empty() ? "none" : f.stated) + (f.bom ? " with BOM" : ""); }
static std::string planstr(const std::vector<int>& p) { std::string s; for (int x : p) s += (x ? std::to_string(x) : std::string("all")) + ","; return s; }

static void deliver_check(const Form& f, const Text& t, int ch, size_t opts, const std::vector<int>& plan, const std::string& show) {
    if (!enc::can(f.coding, t)) mc::prune();
    std::string bytes = (f.bom ? bom(f.coding) : "") + enc::encode(f.coding, t);
    mc::note(name(f) + " " + CHN[ch] + " reads " + planstr(plan) + " text " + show);
    static std::string last; static Obs m;          // the memory parse of the text is the same for every channel and plan
    std::string key = f.stated + "|" + std::to_string(opts) + "|" + bytes;
    if (ch == MEM || key != last) { last.clear(); m = parse(MEM, bytes, f.stated, "", opts, {}); }
    MC_CHECK(m.rc == 0, "status " + std::to_string(m.rc) + " from memory", "");
    Text want = enc::lf(t);
    MC_CHECK(m.wf, "markup from memory is not well-formed", m.o);
    MC_CHECK(m.text == enc::encode("UTF-8", want), "text from memory differs", "got " + mc::show(m.text) + "\nwant " + mc::show(enc::encode("UTF-8", want)));
    MC_CHECK(m.hash == sha1(bytes), "hash from memory is not the SHA-1 of the bytes", m.hash + " for " + mc::show(bytes));
    MC_CHECK(m.loc == enc::lines(want), "line count " + std::to_string(m.loc - enc::lines(want)) + " off", std::to_string(m.loc) + " not " + std::to_string(enc::lines(want)));
    last = key;
    mc::validated();
    if (ch != MEM) {
        Obs r = parse(ch, bytes, f.stated, "", opts, plan);
        MC_CHECK(r.rc == 0, "status " + std::to_string(r.rc), "");
        MC_CHECK(r.hash == m.hash, "hash differs from the memory one", r.hash + " / " + m.hash);
        MC_CHECK(r.o == m.o, "result differs from the memory one", r.o + "\n--\n" + m.o);
        if (ch == IO) MC_CHECK(S.closes == 1, "close callback called " + std::to_string(S.closes) + " times", "");
        mc::validated();
    }
    mc::state(m.o + CHN[ch] + planstr(plan));
}

void mc_setup() {
    bool P04 = mc::E().opts["set"] == "P04", th = mc::thorough();
    if (P04) {
        int L = th ? 4 : 3;
        mc::add("short texts, every split", "all texts of up to " + std::to_string(L) + " of 9 characters x " + std::to_string(FORMS.size()) + " encodings/BOM forms x 5 channels x every read plan (1, 2, 3 bytes or all, for the first reads)", 3, 30, [=] {
            const Form& f = mc::pick(FORMS);
            int ch = mc::choose(NCH);
            int n = mc::choose(L + 1);
            Text t; std::string show;
            for (int i = 0; i < n; ++i) { unsigned c = PIECES[mc::choose(9)]; t.push_back(c); }
            if (!enc::can(f.coding, t)) mc::prune();
            size_t size = enc::encode(f.coding, t).size() + (f.bom ? bom(f.coding).size() : 0);
            std::vector<int> plan;
            if (ch != MEM) {
                int reads = th ? 6 : 3;
                for (size_t at = 0; at < size && (int) plan.size() < reads;) { int k = mc::choose(4); plan.push_back(k); if (!k) break; at += k; }
            }
            deliver_check(f, t, ch, 0, plan, mc::show(enc::encode("UTF-8", t)));
        });
        mc::add("around buffer boundaries", "texts that put each character class at every byte offset around the first and second 1024-byte buffer x encodings x channels x first read short", 3, 30, [=] {
            const Form& f = mc::pick(FORMS);
            int ch = mc::choose(NCH);
            unsigned c = PIECES[mc::choose(6)], c2 = PIECES[mc::choose(th ? 6 : 3)];
            int unit = f.coding.compare(0, 6, "UTF-16") == 0 ? 2 : f.coding.compare(0, 6, "UTF-32") == 0 ? 4 : 1;
            int at = 1024 / unit * (1 + mc::choose(2)) - 6 + mc::choose(9);
            Text t;
            for (int i = 0; i < at; ++i) t.push_back(i % 61 == 60 ? '\n' : 'x');
            t.push_back(c); t.push_back(c2); t.push_back('a'); t.push_back(';');
            if (!enc::can(f.coding, t)) mc::prune();
            std::vector<int> plan;
            if (ch != MEM) plan = mc::pick(std::vector<std::vector<int>>{{}, {1}, {3, 1022}, {1023, 1}, {1021, 1, 1, 1}});
            deliver_check(f, t, ch, 0, plan, std::to_string(at) + " x then " + mc::show(enc::encode("UTF-8", {c, c2})));
        });
        mc::add("options", "four texts x options (positions, stored encoding, no xml declaration) x channels x encodings", 2, 30, [=] {
            const Form& f = mc::pick(FORMS); int ch = mc::choose(NCH);
            size_t o = mc::pick(std::vector<size_t>{SRCML_OPTION_STORE_ENCODING, SRCML_OPTION_POSITION, SRCML_OPTION_NO_XML_DECL | SRCML_OPTION_STORE_ENCODING, SRCML_OPTION_CPP});
            const char* T[] = {"", "a", "int a;\n\tint b;\r\n", "//\xe9\n"};
            Text t; for (const char* p = T[mc::choose(4)]; *p; ++p) t.push_back((unsigned char) *p);
            std::vector<int> plan; if (ch != MEM) for (int i = 0; i < 3; ++i) plan.push_back(mc::choose(3));
            deliver_check(f, t, ch, o, plan, "opt " + std::to_string(o) + " " + mc::show(enc::encode("UTF-8", t)));
        });
        return;
    }
    // ---------------------------------------------------------------- P05
    static const unsigned CH5[] = {'a', '\n', '\r', 0xE9, 0x20AC, 0x1F600, '<', '&', 0xFEFF, 0x3B1};
    // encoding names and the coding each stands for
    static const std::vector<std::pair<std::string, std::string>> NAMES = {{"", ""}, {"UTF-8", "UTF-8"}, {"utf-8", "UTF-8"}, {"ISO-8859-1", "ISO-8859-1"}, {"UTF-16LE", "UTF-16LE"}, {"UTF-16BE", "UTF-16BE"}, {"UTF-32LE", "UTF-32LE"}, {"windows-1252", "windows-1252"}, {"US-ASCII", "US-ASCII"}, {"latin1", "ISO-8859-1"}, {"UTF-16", "UTF-16*"}, {"utf16", "UTF-16*"}};
    int L = th ? 3 : 2;
    mc::add("which encoding decodes", "unit encoding x archive encoding (12 names each) x byte-order mark x all texts of up to " + std::to_string(L) + " of 10 characters", 3, 30, [=] {
        auto& un = mc::pick(NAMES); auto& an = mc::pick(NAMES);
        std::string eff = un.second.size() ? un.second : an.second;
        std::string bm, coding = eff;
        if (eff.empty()) {
            const std::vector<std::string> B = {"", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};
            std::string b = mc::pick(B); coding = b.empty() ? "ISO-8859-1" : b; bm = bom(b);
        } else if (eff == "UTF-8") bm = mc::choose(2) ? bom("UTF-8") : "";
        else if (eff == "UTF-16*") { coding = mc::choose(2) ? "UTF-16BE" : "UTF-16LE"; bm = bom(coding); }
        int n = mc::choose(L + 1); Text t;
        for (int i = 0; i < n; ++i) t.push_back(CH5[mc::choose(10)]);
        if (!enc::can(coding, t)) mc::prune();
        if (!t.empty() && t[0] == 0xFEFF) mc::prune();         // a byte-order mark, not a character of the text
        std::string bytes = bm + enc::encode(coding, t);
        mc::note("unit encoding '" + un.first + "' archive encoding '" + an.first + "' BOM " + mc::show(bm) + " coding " + coding + " text " + mc::show(enc::encode("UTF-8", t)));
        Obs m = parse(MEM, bytes, un.first, an.first, 0, {});
        MC_CHECK(m.rc == 0, "status " + std::to_string(m.rc), "");
        MC_CHECK(m.wf, "markup not well-formed", m.o);
        std::string want = enc::encode("UTF-8", enc::lf(t));
        MC_CHECK(m.text == want, "decoded text differs", "got " + mc::show(m.text) + "\nwant " + mc::show(want));
        mc::state(m.o + un.first + an.first + bm); mc::validated();
    });
    mc::add("unparse", "source encoding x output encoding stated on the unit or on the archive x line ending x all texts of up to " + std::to_string(L) + " of 10 characters", 3, 30, [=] {
        static const VS IN = {"UTF-8", "ISO-8859-1", "UTF-16LE", "windows-1252"};
        static const VS OUT = {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE", "windows-1252", "utf-8"};
        std::string in = mc::pick(IN);
        int how = mc::choose(2);             // 0: unit says, 1: archive says
        std::string out = mc::pick(OUT);
        int eol = mc::choose(4);
        int n = mc::choose(L + 1); Text t;
        for (int i = 0; i < n; ++i) t.push_back(CH5[mc::choose(10)]);
        std::string oc = out == "utf-8" ? "UTF-8" : out;
        if (!enc::can(in, t) || !enc::can(oc, t)) mc::prune();
        if (!t.empty() && t[0] == 0xFEFF) mc::prune();
        mc::note("source " + in + " output " + out + (how == 0 ? " (unit)" : " (archive)") + " eol " + std::to_string(eol) + " text " + mc::show(enc::encode("UTF-8", t)));
        std::string bytes = enc::encode(in, t);
        sml::Out o;
        { sml::Archive a(srcml_archive_create());
          srcml_archive_set_language(a.get(), "C++");
          srcml_archive_set_src_encoding(a.get(), in.c_str());
          srcml_archive_write_open_memory(a.get(), &o.p, &o.n);
          sml::Unit u(srcml_unit_create(a.get()));
          int rc = srcml_unit_parse_memory(u.get(), bytes.data(), bytes.size());
          MC_CHECK(rc == 0, "parse status " + std::to_string(rc), "");
          rc = srcml_archive_write_unit(a.get(), u.get());
          MC_CHECK(rc == 0, "write status " + std::to_string(rc), "");
        }
        sml::Archive r(srcml_archive_create());
        if (how == 1) srcml_archive_set_src_encoding(r.get(), out.c_str());
        int rc = srcml_archive_read_open_memory(r.get(), o.p, o.n);
        MC_CHECK(rc == 0, "cannot read the archive", o.str());
        if (how == 1) srcml_archive_set_src_encoding(r.get(), out.c_str());
        sml::Unit v(srcml_archive_read_unit(r.get()));
        MC_CHECK(v.get() != nullptr, "no unit", o.str());
        if (how == 0) srcml_unit_set_src_encoding(v.get(), out.c_str());
        srcml_unit_set_eol(v.get(), (size_t) eol);
        sml::Out p; p.rc = srcml_unit_unparse_memory(v.get(), &p.p, &p.n);
        MC_CHECK(p.rc == 0, "unparse status " + std::to_string(p.rc), "");
        Text w;
        for (unsigned c : enc::lf(t)) { if (c == '\n' && eol == 2) w.push_back('\r'); else if (c == '\n' && eol == 3) { w.push_back('\r'); w.push_back('\n'); } else w.push_back(c); }
        MC_CHECK(p.str() == enc::encode(oc, w), "unparsed bytes differ", "got " + mc::show(p.str()) + "\nwant " + mc::show(enc::encode(oc, w)) + "\n" + o.str());
        mc::state(p.str() + out + std::to_string(how)); mc::validated();
    });
    mc::add("archive encodings", "xml encoding of the archive x all texts of up to " + std::to_string(L) + " of 10 characters: the archive reads back as the same characters", 3, 30, [=] {
        static const VS X = {"UTF-8", "ISO-8859-1", "UTF-16LE", "US-ASCII", "windows-1252"};
        std::string x = mc::pick(X); int n = mc::choose(L + 1); Text t;
        for (int i = 0; i < n; ++i) t.push_back(CH5[mc::choose(10)]);
        if (!t.empty() && t[0] == 0xFEFF) mc::prune();
        std::string src = enc::encode("UTF-8", t);
        mc::note("xml encoding " + x + " text " + mc::show(src));
        sml::Out o;
        { sml::Archive a(srcml_archive_create());
          srcml_archive_set_language(a.get(), "C++"); srcml_archive_set_src_encoding(a.get(), "UTF-8");
          MC_CHECK(srcml_archive_set_xml_encoding(a.get(), x.c_str()) == 0, "set_xml_encoding", x);
          srcml_archive_write_open_memory(a.get(), &o.p, &o.n);
          sml::Unit u(srcml_unit_create(a.get()));
          MC_CHECK(srcml_unit_parse_memory(u.get(), src.data(), src.size()) == 0, "parse status", "");
          MC_CHECK(srcml_archive_write_unit(a.get(), u.get()) == 0, "write status", ""); }
        sml::Archive r(srcml_archive_create());
        MC_CHECK(srcml_archive_read_open_memory(r.get(), o.p, o.n) == 0, "cannot read the archive", mc::show(o.str()));
        sml::Unit v(srcml_archive_read_unit(r.get()));
        MC_CHECK(v.get() != nullptr, "no unit", mc::show(o.str()));
        std::string got = sml::text_of(sml::scan(sml::s(srcml_unit_get_srcml_outer(v.get()))));
        MC_CHECK(got == enc::encode("UTF-8", enc::lf(t)), "text differs", "got " + mc::show(got) + "\n" + mc::show(o.str()));
        mc::state(o.str()); mc::validated();
    });
}
MC_MAIN
