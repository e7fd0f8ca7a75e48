"""P34: programs that must compile, and calls that must not.

Small translation units that use the public interface are given to the compilers and never run: every kind of value through every logging
entry point, every sink through every factory, the management calls with the arguments a user may give; and calls with a value nobody can
print, a wrong level, a format string that does not fit, each of which the compiler has to refuse."""
import concurrent.futures as cf
import re
from build import CLANG
from model import AnalysisBroken
from rules.headers import Work, DEFS, headers, first_error

LEVELS = ("trace", "debug", "info", "warn", "error", "critical")
STDS = ("c++11", "c++14", "c++17", "c++20", "c++23")
TLS = "with thread-local storage"

PRELUDE = '''#include "learnlog.h"
#include "async_logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include "sinks/formatters/pattern_formatter.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include <chrono>
#include <iostream>
#include <list>
#include <memory>
#include <string>
#include <vector>
#if __cplusplus >= 201703L
#include <string_view>
#endif
namespace user {
struct point { int x, y; };
enum class colour { red, green };
inline int format_as(colour c) { return static_cast<int>(c); }
enum plain { one };
inline int format_as(plain p) { return p; }
struct handle { int v; explicit handle(int n) : v(n) {} handle(handle&&) = default; handle(const handle&) = delete; };
template <int N> struct secret { int v; };
}
namespace fmt {
template <> struct formatter<user::point> : formatter<int> { template <typename C> auto format(const user::point& p, C& c) const -> decltype(c.out()) { return formatter<int>::format(p.x, c); } };
template <> struct formatter<user::handle> : formatter<int> { template <typename C> auto format(const user::handle& p, C& c) const -> decltype(c.out()) { return formatter<int>::format(p.v, c); } };
}
using namespace learnlog;
'''

NUMBERS = ("short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "signed char", "unsigned char", "char", "bool", "float", "double", "long double")
# name, declarations, expressions
VALUES = [(t, "%s v = 1; const %s c = 1; (void)v; (void)c;" % (t, t), ("v", "c", "std::move(v)", "static_cast<%s>(1)" % t)) for t in NUMBERS] + [
    ("character array", 'char v[4] = "abc"; const char c[4] = "abc"; (void)v; (void)c;', ("v", "c")),
    ("C string", 'const char* v = "x"; const char* const c = "x"; char b[2] = "x"; char* w = b; (void)v; (void)c; (void)w;', ("v", "c", "w")),
    ("std::string", 'std::string v = "x"; const std::string c = "x";', ("v", "c", "std::move(v)", 'std::string("x")', 'c + "y"')),
    ("string view of the formatting library", 'fmt_string_view v = "x"; const fmt_string_view c = "x";', ("v", "c", 'fmt_string_view("x")')),
    ("pointer", "void* v = nullptr; const void* const c = nullptr;", ("v", "c")),
    ("user type with a formatter", "user::point v = {1, 2}; const user::point c = {1, 2};", ("v", "c", "user::point()")),
    ("move-only user type with a formatter", "user::handle v(1); const user::handle c(1);", ("v", "c", "user::handle(1)")),
    ("scoped enumeration with format_as", "user::colour v = user::colour::red; const user::colour c = v;", ("v", "c", "user::colour::green")),
    ("enumeration with format_as", "user::plain v = user::one; const user::plain c = v;", ("v", "c", "user::one")),
]
VIEW17 = ("std::string_view", 'std::string_view v = "x"; const std::string_view c = "x";', ("v", "c", 'std::string_view("x")'))
TARGETS = (("logger", "l."), ("async_logger", "a."), ("default logger", "learnlog::"))


def entry_points(p):
    """(a text with a hole for the value, a text with holes for a format string and arguments)"""
    for lv in LEVELS:
        yield p + lv + "(%s);", p + lv + "(%s, %s);"
    yield p + "log(lvl, %s);", p + "log(lvl, %s, %s);"
    yield p + "log(loc, lvl, %s);", p + "log(loc, lvl, %s, %s);"


class Unit:
    """a translation unit whose lines are the claims"""

    def __init__(self, text=PRELUDE):
        self.lines = text.splitlines()
        self.claims = {}

    def add(self, text, claim=None):
        self.lines.append(text)
        if claim:
            self.claims[len(self.lines)] = claim

    def src(self):
        return "\n".join(self.lines) + "\n"


HEAD = "void w%d(logger& l, async_logger& a, source_loc loc, level::level_enum lvl) {"


def logging_unit(values):
    u = Unit()
    for n, (what, decl, uses) in enumerate(values):
        u.add(HEAD % n + " " + decl)
        for target, p in TARGETS:
            for one, many in entry_points(p):
                for e in uses:
                    u.add(one % e, "%s given alone" % what)
                    u.add(many % ('"{}"', e), "%s as the argument of a format string" % what)
                    u.add(many % ('"{2} {0:} {1}"', e + ', 1, "x"'), "%s among several arguments" % what)
        u.add("(void)l; (void)a; (void)loc; (void)lvl; }")
    u.add(HEAD % 999)
    for target, p in TARGETS:
        for one, many in entry_points(p):
            u.add(one % '"text"', "a literal text")
            u.add(many % ('"{:>8} {:.2f} {:#x}"', '"x", 1.5, 255u'), "format specifications")
    for e in ('"text"', 'std::string("text")', 'fmt_string_view("text")'):
        u.add("l.log(sys_clock::now(), loc, lvl, %s); a.log(sys_clock::now(), loc, lvl, %s);" % (e, e), "a text with a given time")
    u.add("}")
    return u


POOLS = ("lock_thread_pool", "lockfree_thread_pool", "lockfree_concurrent_thread_pool")
FACTORIES = ("create", "create_async_lock", "create_async_lockfree", "create_async_lockfree_concurrent")


def management_unit():
    u = Unit()
    u.add('void factories() { std::string name = "n"; const std::string cname = "n"; filename_t file = "f"; const filename_t cfile = "f"; std::ostream& os = std::cout; (void)os;')
    for f in FACTORIES:
        R = "logger_shr_ptr r = " if f == "create" else "async_logger_shr_ptr r = "
        for mt in ("mt", "st"):
            def c(sink, args, what):
                for nm in ('"n"', "name", "cname", "std::move(name)"):
                    u.add("{ %slearnlog::%s<sinks::%s_%s>(%s); (void)r; }" % (R, f, sink, mt, ", ".join((nm,) + args)), what)
            c("null_sink", (), "a null sink by %s" % f)
            for s in ("stdout_sink", "stderr_sink", "stdout_color_sink", "stderr_color_sink"):
                c(s, (), "a console sink by %s" % f)
            for a in ((), ("true",), ("false",)):
                c("ostream_sink", ("os",) + a, "a stream sink by %s" % f)
                for fn in ('"f"', "file", "cfile"):
                    c("basic_file_sink", (fn,) + a, "a file sink by %s" % f)
            for fn in ('"f"', "file", "cfile"):
                c("rolling_file_sink", (fn, "1024", "3"), "a rolling file sink by %s" % f)
    u.add("}")
    u.add('void manage(logger_shr_ptr l, async_logger_shr_ptr a, std::shared_ptr<base::thread_pool> tp) { std::string name = "n"; const std::string cname = "n";')
    for nm in ('"n"', "name", "cname"):
        for s in ('learnlog::get_logger(%s);', 'learnlog::remove_logger(%s);', 'learnlog::set_pattern(%s, "%%v");', 'learnlog::set_log_level(%s, level::warn);', 'learnlog::set_flush_level(%s, level::off);',
                  'l->clone(%s);', 'a->clone(%s);', 'l->set_pattern(%s);', 'learnlog::set_global_pattern(%s);'):
            u.add(s % nm, "a name or pattern as literal, string and const string")
    for s in ("learnlog::register_logger(l);", "learnlog::register_logger(a);", "learnlog::initialize_logger(l);", "learnlog::initialize_logger(a);", "learnlog::set_default_logger(l);",
              "learnlog::set_default_logger(a);", "learnlog::set_auto_register_logger(false);", "learnlog::register_thread_pool(tp);", "learnlog::register_thread_pool(nullptr);",
              "{ thread_pool_shr_ptr p = learnlog::get_thread_pool(); (void)p; }", "{ logger_shr_ptr p = learnlog::get_default_logger(); (void)p; }",
              "learnlog::set_global_log_level(level::off);", "learnlog::set_global_flush_level(level::trace);", "learnlog::flush_all();", "learnlog::remove_all();", "learnlog::close();",
              "learnlog::exec_all([](logger_shr_ptr p) { p->flush(); });", "learnlog::exec_all([&](const logger_shr_ptr& p) { p->set_log_level(level::info); });",
              "learnlog::flush_every(std::chrono::seconds(1));", "learnlog::flush_every(std::chrono::milliseconds(1));", "learnlog::flush_every(std::chrono::minutes(1));",
              "learnlog::flush_every(std::chrono::hours(1));", "learnlog::flush_every(std::chrono::microseconds(1));", "learnlog::flush_every(std::chrono::duration<double>(0.5));",
              'learnlog::set_global_formatter(learnlog::make_unique<sinks::pattern_formatter>("%v"));', "learnlog::set_global_formatter(formatter_uni_ptr(new sinks::pattern_formatter()));",
              "l->set_formatter(learnlog::make_unique<sinks::pattern_formatter>());", "l->enable_backtrace_n(8); l->disable_backtrace(); l->dump_backtrace();",
              "l->sinks().push_back(std::make_shared<sinks::null_sink_mt>());", "a->sinks().clear();", "l->swap(*l);", "{ logger c(*l); logger m(std::move(c)); (void)m; }",
              "l->set_flush_level(level::error); { level::level_enum e = l->get_flush_level(); (void)e; e = l->get_log_level(); }", "{ bool b = l->is_async(); (void)b; const std::string& n = l->name(); (void)n; }"):
        u.add(s, "a management call")
    for p in POOLS:
        for q in ("", "64, 2", "64, 1, [] {}", "64, 1, [] {}, [] {}", "64u, 1u, std::function<void()>([] {})"):
            u.add("{ auto p = std::make_shared<base::%s>(%s); learnlog::register_thread_pool(p); }" % (p, q), "a thread pool of the user's own")
        u.add("learnlog::initialize_thread_pool<base::%s>(64, 2);" % p, "a thread pool by its type")
    u.add("}")
    u.add('void construct(std::shared_ptr<base::thread_pool> tp) { sink_shr_ptr s; auto n = std::make_shared<sinks::null_sink_mt>(); std::vector<sink_shr_ptr> v; std::list<sink_shr_ptr> ls; (void)v; (void)ls;')
    for args in ('"n"', '"n", s', '"n", n', '"n", {s, n}', '"n", v.begin(), v.end()', '"n", ls.begin(), ls.end()', '"n", v.rbegin(), v.rend()', 'std::string("n"), std::make_shared<sinks::stdout_sink_st>()'):
        u.add("{ logger l(%s); (void)l; }" % args, "a logger from its name and sinks")
        if args != '"n"':
            u.add("{ async_logger l(%s, tp); (void)l; }" % args, "an asynchronous logger from its name, sinks and pool")
    u.add("}")
    return u


def refused_unit():
    """calls that must not compile: under every standard"""
    u = Unit()
    n = 0
    u.add(HEAD % 0)
    for target, p in TARGETS:
        for one, many in entry_points(p):
            u.add(one % ("user::secret<%d>()" % n), "a value nobody can print is accepted")
            u.add(many % ('"{}"', "user::secret<%d>()" % (n + 1)), "an argument nobody can print is accepted")
            n += 2
        u.add(p + 'log(7, "text");', "a number is accepted as a level")
        u.add(p + 'log("text");', "a message without a level is accepted")
        u.add(p + 'log(loc, 7, "text");', "a number is accepted as a level")
    for s in ("l.set_log_level(3);", "l.set_flush_level(3);", "learnlog::set_global_log_level(3);", "learnlog::set_global_flush_level(3);", 'learnlog::set_log_level("n", 3);'):
        u.add(s, "a number is accepted as a level")
    for s in ("learnlog::flush_every(1);", "learnlog::flush_every(0.5);"):
        u.add(s, "a number without a unit is accepted as an interval")
    for s in ('learnlog::create<int>("n");', 'learnlog::create_async_lock<int>("n");', 'learnlog::create<sinks::basic_file_sink_mt>("n");', 'learnlog::create<sinks::null_sink_mt>("n", 1, 2, 3);'):
        u.add(s, "a logger is created from something that is no sink, or without its arguments")
    u.add("}")
    return u


WRONG = (('"{} {}"', "1", "too few arguments for the format string"), ('"{:d}"', '"x"', "a specification that does not fit the argument"), ('"{"', "1", "a malformed format string"),
         ('"{:.3}"', "1", "a precision for an integer"), ('"{1}"', "1", "an argument index out of range"))


def format_unit():
    """format strings that do not fit: refused where the language lets the library see them"""
    u = Unit()
    u.add(HEAD % 0)
    for target, p in TARGETS:
        for one, many in entry_points(p):
            for fmt, arg, what in WRONG:
                u.add(many % (fmt, arg), what + " is accepted")
    u.add("}")
    return u


def hits(u, err, name):
    """lines of the unit that the diagnostics speak of"""
    out = {}
    for l in err.splitlines():
        m = re.search(r"(?:^|[ /])%s:(\d+)[:,]" % re.escape(name), l)
        if m:
            out.setdefault(int(m.group(1)), l)
    return out


def nearest(err, line):
    """the error that a diagnostic line belongs to"""
    ls = err.splitlines()
    k = ls.index(line)
    for j in sorted(range(len(ls)), key=lambda j: abs(j - k)):
        if "error:" in ls[j]:
            return ls[j].split("error:", 1)[1].strip()[:200]
    return first_error(err)


def p34(rep):
    headers()
    n = 0
    jobs = []
    with Work() as w, cf.ThreadPoolExecutor(8) as ex:
        units = {}
        half = len(VALUES) // 2
        for name, u in (("numbers.cpp", logging_unit(VALUES[:half])), ("texts.cpp", logging_unit(VALUES[half:])), ("views.cpp", logging_unit([VIEW17])), ("manage.cpp", management_unit())):
            units[name] = (u, w.write(u.src(), name))
        for name, (u, src) in units.items():
            for std in STDS:
                if name == "views.cpp" and std < "c++17":
                    continue
                for cc in (CLANG, "g++"):
                    for what, fl in DEFS.items():
                        if what == TLS or std == "c++11" and cc == CLANG:
                            more = ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"] if cc == CLANG else ["-ftemplate-backtrace-limit=0"]
                            jobs.append((name, std, cc, what, ex.submit(w.compile, src, fl + ["-fsyntax-only"] + more, cc, std)))
        neg = []
        for name, u, stds in (("refused.cpp", refused_unit(), STDS), ("formats.cpp", format_unit(), ("c++20", "c++23"))):
            src = w.write(u.src(), name)
            for std in stds:
                neg.append((name, u, std, ex.submit(w.compile, src, DEFS[TLS] + ["-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0"], CLANG, std)))
        said = set()

        def say(rule, where, msg):
            if (rule, where, msg) not in said:
                said.add((rule, where, msg))
                rep.viol(rule, where, msg, key="%s|%s|%s" % (rule, where, re.sub(r" \(.*", "", msg)))
        for name, std, cc, what, j in jobs:
            u = units[name][0]
            rc, out, err = j.result()
            n += len(u.claims)
            if rc == 0:
                rep.ok("accepted", name, "%d calls compile with %s -std=%s, %s" % (len(u.claims), cc, std, what))
                continue
            h = hits(u, err, name)
            if not any(k in u.claims for k in h):
                say("accepted", "headers", "the headers do not compile with %s -std=%s: %s" % (cc, std, first_error(err)))
            shown = set()
            for k in sorted(h):
                c = u.claims.get(k)
                if c and c not in shown:
                    shown.add(c)
                    text = u.lines[k - 1].strip()
                    say("accepted", c, "%s does not compile (%s -std=%s): %s" % (text, cc, std, nearest(err, h[k])))
        for name, u, std, j in neg:
            rc, out, err = j.result()
            n += len(u.claims)
            h = hits(u, err, name)
            missed = [k for k in u.claims if k not in h]
            if rc == 0 and not missed:
                raise AnalysisBroken("the calls that must be refused were not compiled")
            stray = [k for k in h if k not in u.claims and "error:" in h[k]]
            if stray:
                raise AnalysisBroken("%s does not compile for another reason: %s" % (name, h[stray[0]][:200]))
            if not missed:
                rep.ok("refused", name, "all %d wrong calls are refused with -std=%s" % (len(u.claims), std))
            for k in missed:
                say("refused", u.claims[k], "%s compiles (-std=%s)" % (u.lines[k - 1].strip(), std))
    total = sum(len(u.claims) for u, s in units.values())
    rep.check(total >= 2500, "coverage", "witnesses", "%d calls in %d kinds" % (total, len({c for u, s in units.values() for c in u.claims.values()})), "too few calls")
    rep.paths += n
    rep.explanation = ("%d calls that must compile (every kind of value through every logging entry point, every sink through every factory, the management calls) are compiled by two compilers "
                       "under five language standards; %d wrong calls must each be refused." % (total, sum(len(u.claims) for _, u, _, _ in neg)))


PROPERTIES = {"P34": p34}
