// Driver translation unit: instantiates every template of the library that a user can reach and gives the analysis
// one small named entry point per public operation.  Nothing here is ever executed.
#include "learnlog.h"
#include "async_logger.h"
#include "async_factory.h"
#include "sync_factory.h"
#include "logger.h"
#include "base/backtracer.h"
#include "base/block_queue.h"
#include "base/circular_queue.h"
#include "base/file_base.h"
#include "base/fmt_base.h"
#include "base/os.h"
#include "base/periodic_function.h"
#include "sinks/basic_file_sink.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"

#include <sstream>
#include <string>
#include <vector>

using namespace learnlog;

// ------------------------------------------------------------------ explicit instantiations
template class learnlog::sinks::basic_sink<std::mutex>;
template class learnlog::sinks::basic_sink<base::null_mutex>;
template class learnlog::sinks::basic_file_sink<std::mutex>;
template class learnlog::sinks::basic_file_sink<base::null_mutex>;
template class learnlog::sinks::rolling_file_sink<std::mutex>;
template class learnlog::sinks::rolling_file_sink<base::null_mutex>;
template class learnlog::sinks::ostream_sink<std::mutex>;
template class learnlog::sinks::ostream_sink<base::null_mutex>;
template class learnlog::sinks::null_sink<std::mutex>;
template class learnlog::sinks::null_sink<base::null_mutex>;
template class learnlog::sinks::std_sink<base::static_mutex>;
template class learnlog::sinks::std_sink<base::static_nullmutex>;
template class learnlog::sinks::stdout_sink<base::static_mutex>;
template class learnlog::sinks::stderr_sink<base::static_mutex>;
template class learnlog::sinks::stdout_sink<base::static_nullmutex>;
template class learnlog::sinks::stderr_sink<base::static_nullmutex>;
template class learnlog::sinks::ansicolor_sink<base::static_mutex>;
template class learnlog::sinks::ansicolor_sink<base::static_nullmutex>;
template class learnlog::sinks::stdout_ansicolor_sink<base::static_mutex>;
template class learnlog::sinks::stderr_ansicolor_sink<base::static_mutex>;
template class learnlog::sinks::stdout_ansicolor_sink<base::static_nullmutex>;
template class learnlog::sinks::stderr_ansicolor_sink<base::static_nullmutex>;
template class learnlog::base::block_queue<base::async_msg>;
template class learnlog::base::circular_queue<base::log_msg_buf>;

namespace vdrv {
struct streamable_value { int v; };

// ------------------------------------------------------------------ logging calls: member functions of a logger
// name: m_<form>__<level>   level "arg" means the level is a parameter
void m_log_loc_fmt__arg(logger& l, source_loc loc, level::level_enum lvl, int a) { l.log(loc, lvl, "x {}", a); }
void m_log_fmt__arg(logger& l, level::level_enum lvl, int a) { l.log(lvl, "x {}", a); }
void m_log_lit__arg(logger& l, level::level_enum lvl) { l.log(lvl, "text"); }
void m_log_val__arg(logger& l, level::level_enum lvl, const int& v) { l.log(lvl, v); }
void m_log_str__arg(logger& l, level::level_enum lvl, const std::string& v) { l.log(lvl, v); }
void m_log_cstr__arg(logger& l, level::level_enum lvl, const char* v) { l.log(lvl, v); }
void m_log_sv__arg(logger& l, level::level_enum lvl, fmt_string_view v) { l.log(lvl, v); }
void m_log_loc_val__arg(logger& l, source_loc loc, level::level_enum lvl, const int& v) { l.log(loc, lvl, v); }
void m_log_loc_str__arg(logger& l, source_loc loc, level::level_enum lvl, const std::string& v) { l.log(loc, lvl, v); }
void m_log_loc_lit__arg(logger& l, source_loc loc, level::level_enum lvl) { l.log(loc, lvl, "text"); }
void m_log_loc_cstr__arg(logger& l, source_loc loc, level::level_enum lvl, const char* v) { l.log(loc, lvl, v); }
void m_log_loc_sv__arg(logger& l, source_loc loc, level::level_enum lvl, fmt_string_view v) { l.log(loc, lvl, v); }
void m_log_time__arg(logger& l, sys_clock::time_point t, source_loc loc, level::level_enum lvl, fmt_string_view v) { l.log(t, loc, lvl, v); }
#define NAMED(LV)                                                                        \
    void m_named_fmt__##LV(logger& l, int a) { l.LV("x {}", a); }                        \
    void m_named_lit__##LV(logger& l) { l.LV("text"); }                                  \
    void m_named_val__##LV(logger& l, const int& v) { l.LV(v); }                         \
    void m_named_str__##LV(logger& l, const std::string& v) { l.LV(v); }                 \
    void m_named_cstr__##LV(logger& l, const char* v) { l.LV(v); }                       \
    void m_named_sv__##LV(logger& l, fmt_string_view v) { l.LV(v); }                     \
    void f_named_fmt__##LV(int a) { learnlog::LV("x {}", a); }                           \
    void f_named_lit__##LV() { learnlog::LV("text"); }                                   \
    void f_named_val__##LV(const int& v) { learnlog::LV(v); }                            \
    void f_named_str__##LV(const std::string& v) { learnlog::LV(v); }                    \
    void f_named_cstr__##LV(const char* v) { learnlog::LV(v); }                          \
    void f_named_sv__##LV(fmt_string_view v) { learnlog::LV(v); }
NAMED(trace)
NAMED(debug)
NAMED(info)
NAMED(warn)
NAMED(error)
NAMED(critical)
void f_log_loc_fmt__arg(source_loc loc, level::level_enum lvl, int a) { learnlog::log(loc, lvl, "x {}", a); }
void f_log_fmt__arg(level::level_enum lvl, int a) { learnlog::log(lvl, "x {}", a); }
void f_log_lit__arg(level::level_enum lvl) { learnlog::log(lvl, "text"); }
void f_log_val__arg(level::level_enum lvl, const int& v) { learnlog::log(lvl, v); }
void f_log_str__arg(level::level_enum lvl, const std::string& v) { learnlog::log(lvl, v); }
void f_log_cstr__arg(level::level_enum lvl, const char* v) { learnlog::log(lvl, v); }
void f_log_sv__arg(level::level_enum lvl, fmt_string_view v) { learnlog::log(lvl, v); }
void f_log_loc_lit__arg(source_loc loc, level::level_enum lvl) { learnlog::log(loc, lvl, "text"); }
void f_log_loc_str__arg(source_loc loc, level::level_enum lvl, const std::string& v) { learnlog::log(loc, lvl, v); }
void f_log_loc_cstr__arg(source_loc loc, level::level_enum lvl, const char* v) { learnlog::log(loc, lvl, v); }
void f_log_loc_sv__arg(source_loc loc, level::level_enum lvl, fmt_string_view v) { learnlog::log(loc, lvl, v); }
void f_log_loc_val__arg(source_loc loc, level::level_enum lvl, const int& v) { learnlog::log(loc, lvl, v); }

// ------------------------------------------------------------------ logger management
void lg_flush(logger& l) { l.flush(); }
void lg_set_log_level(logger& l, level::level_enum v) { l.set_log_level(v); }
level::level_enum lg_get_log_level(logger& l) { return l.get_log_level(); }
void lg_set_flush_level(logger& l, level::level_enum v) { l.set_flush_level(v); }
level::level_enum lg_get_flush_level(logger& l) { return l.get_flush_level(); }
void lg_set_pattern(logger& l, std::string p) { l.set_pattern(std::move(p)); }
const std::string& lg_get_pattern(logger& l) { return l.get_pattern(); }
void lg_set_formatter(logger& l, formatter_uni_ptr f) { l.set_formatter(std::move(f)); }
void lg_enable_backtrace(logger& l, size_t n) { l.enable_backtrace_n(n); }
void lg_disable_backtrace(logger& l) { l.disable_backtrace(); }
void lg_dump_backtrace(logger& l) { l.dump_backtrace(); }
const std::vector<sink_shr_ptr>& lg_sinks(logger& l) { return l.sinks(); }
const std::string& lg_name(logger& l) { return l.name(); }
bool lg_is_async(logger& l) { return l.is_async(); }
void lg_swap(logger& a, logger& b) { a.swap(b); }
logger* lg_copy(const logger& a) { return new logger(a); }
logger* lg_move(logger&& a) { return new logger(std::move(a)); }
void lg_swap_free(logger& a, logger& b) { learnlog::swap(a, b); }
async_logger* al_copy(const async_logger& a) { return new async_logger(a); }
logger_shr_ptr lg_clone(logger& l, std::string n) { return l.clone(std::move(n)); }
logger* lg_make_list(std::string n, sinks_init_list s) { return new logger(std::move(n), s); }
logger* lg_make_one(std::string n, sink_shr_ptr s) { return new logger(std::move(n), std::move(s)); }
logger* lg_make_name(std::string n) { return new logger(std::move(n)); }
logger* lg_make_range(std::string n, std::vector<sink_shr_ptr>::iterator b, std::vector<sink_shr_ptr>::iterator e) { return new logger(std::move(n), b, e); }
async_logger* al_make_list(std::string n, sinks_init_list s, std::weak_ptr<base::thread_pool> tp) { return new async_logger(std::move(n), s, std::move(tp)); }
async_logger* al_make_one(std::string n, sink_shr_ptr s, std::weak_ptr<base::thread_pool> tp) { return new async_logger(std::move(n), std::move(s), std::move(tp)); }
async_logger* al_make_range(std::string n, std::vector<sink_shr_ptr>::iterator b, std::vector<sink_shr_ptr>::iterator e, std::weak_ptr<base::thread_pool> tp) { return new async_logger(std::move(n), b, e, std::move(tp)); }

// ------------------------------------------------------------------ sinks through the base interface
void sk_set_level(sinks::sink& s, level::level_enum v) { s.set_level(v); }
level::level_enum sk_get_level(sinks::sink& s) { return s.get_level(); }
bool sk_should_log(sinks::sink& s, level::level_enum v) { return s.should_log(v); }
#define STDSINKS(N)                                                                      \
    sinks::N##_mt* mk_##N##_mt() { return new sinks::N##_mt(); }                         \
    sinks::N##_st* mk_##N##_st() { return new sinks::N##_st(); }
STDSINKS(stdout_sink)
STDSINKS(stderr_sink)
STDSINKS(stdout_color_sink)
STDSINKS(stderr_color_sink)
STDSINKS(null_sink)
sinks::basic_file_sink_mt* mk_basic_file_mt(const filename_t& f, bool t) { return new sinks::basic_file_sink_mt(f, t); }
sinks::basic_file_sink_st* mk_basic_file_st(const filename_t& f, bool t) { return new sinks::basic_file_sink_st(f, t); }
// without saying whether to empty the file
sinks::basic_file_sink_mt* df_basic_file_mt(const filename_t& f) { return new sinks::basic_file_sink_mt(f); }
sinks::basic_file_sink_st* df_basic_file_st(const filename_t& f) { return new sinks::basic_file_sink_st(f); }
logger_shr_ptr df_basic_file_logger_mt(const std::string& n, const filename_t& f) { return basic_file_logger_mt(n, f); }
logger_shr_ptr df_basic_file_logger_st(const std::string& n, const filename_t& f) { return basic_file_logger_st(n, f); }
sinks::rolling_file_sink_mt* mk_rolling_file_mt(const filename_t& f, size_t s, size_t n) { return new sinks::rolling_file_sink_mt(f, s, n); }
sinks::rolling_file_sink_st* mk_rolling_file_st(const filename_t& f, size_t s, size_t n) { return new sinks::rolling_file_sink_st(f, s, n); }
sinks::ostream_sink_mt* mk_ostream_mt(std::ostream& o, bool ff) { return new sinks::ostream_sink_mt(o, ff); }
sinks::ostream_sink_st* mk_ostream_st(std::ostream& o, bool ff) { return new sinks::ostream_sink_st(o, ff); }

// ------------------------------------------------------------------ factories
#define FACT(F, TAG)                                                                                          \
    logger_shr_ptr fa_##TAG##__basic_file_mt(const std::string& n, const filename_t& f, bool t) { return basic_file_logger_mt<F>(n, f, t); }  \
    logger_shr_ptr fa_##TAG##__basic_file_st(const std::string& n, const filename_t& f, bool t) { return basic_file_logger_st<F>(n, f, t); }  \
    logger_shr_ptr fa_##TAG##__rolling_file_mt(const std::string& n, const filename_t& f, size_t s, size_t m) { return rolling_file_logger_mt<F>(n, f, s, m); } \
    logger_shr_ptr fa_##TAG##__rolling_file_st(const std::string& n, const filename_t& f, size_t s, size_t m) { return rolling_file_logger_st<F>(n, f, s, m); } \
    logger_shr_ptr fa_##TAG##__stdout_mt(const std::string& n) { return stdout_logger_mt<F>(n); }             \
    logger_shr_ptr fa_##TAG##__stdout_st(const std::string& n) { return stdout_logger_st<F>(n); }             \
    logger_shr_ptr fa_##TAG##__stderr_mt(const std::string& n) { return stderr_logger_mt<F>(n); }             \
    logger_shr_ptr fa_##TAG##__stderr_st(const std::string& n) { return stderr_logger_st<F>(n); }             \
    logger_shr_ptr fa_##TAG##__stdout_color_mt(const std::string& n) { return stdout_color_logger_mt<F>(n); } \
    logger_shr_ptr fa_##TAG##__stdout_color_st(const std::string& n) { return stdout_color_logger_st<F>(n); } \
    logger_shr_ptr fa_##TAG##__stderr_color_mt(const std::string& n) { return stderr_color_logger_mt<F>(n); } \
    logger_shr_ptr fa_##TAG##__stderr_color_st(const std::string& n) { return stderr_color_logger_st<F>(n); } \
    logger_shr_ptr fa_##TAG##__null_mt(const std::string& n) { return null_logger_mt<F>(n); }                 \
    logger_shr_ptr fa_##TAG##__null_st(const std::string& n) { return null_logger_st<F>(n); }
FACT(sync_factory, sync)
FACT(async_factory_lock, lock)
FACT(async_factory_lockfree, lockfree)
FACT(async_factory_lockfree_concurrent, lockfree_concurrent)
logger_shr_ptr cr_sync(std::string n, const filename_t& f, bool t) { return create<sinks::basic_file_sink_mt>(std::move(n), f, t); }
async_logger_shr_ptr cr_lock(std::string n, const filename_t& f, bool t) { return create_async_lock<sinks::basic_file_sink_mt>(std::move(n), f, t); }
async_logger_shr_ptr cr_lockfree(std::string n, const filename_t& f, bool t) { return create_async_lockfree<sinks::basic_file_sink_mt>(std::move(n), f, t); }
async_logger_shr_ptr cr_lockfree_concurrent(std::string n, const filename_t& f, bool t) { return create_async_lockfree_concurrent<sinks::basic_file_sink_mt>(std::move(n), f, t); }

// ------------------------------------------------------------------ thread pools
void tp_init_lock(size_t q, size_t n) { initialize_thread_pool<base::lock_thread_pool>(q, n); }
void tp_init_lockfree(size_t q, size_t n) { initialize_thread_pool<base::lockfree_thread_pool>(q, n); }
void tp_init_lockfree_concurrent(size_t q, size_t n) { initialize_thread_pool<base::lockfree_concurrent_thread_pool>(q, n); }
#define POOL(P)                                                                                               \
    base::P* tp_mk2_##P(size_t q, size_t n) { return new base::P(q, n); }                                     \
    base::P* tp_mk3_##P(size_t q, size_t n, const std::function<void()>& a) { return new base::P(q, n, a); }  \
    base::P* tp_mk4_##P(size_t q, size_t n, const std::function<void()>& a, const std::function<void()>& b) { return new base::P(q, n, a, b); } \
    void tp_del_##P(base::P* p) { p->~P(); }
POOL(lock_thread_pool)
POOL(lockfree_thread_pool)
POOL(lockfree_concurrent_thread_pool)
size_t tp_over(base::lock_thread_pool& p) { return p.override_count(); }
size_t tp_disc(base::lock_thread_pool& p) { return p.discard_count(); }
void tp_rover(base::lock_thread_pool& p) { p.reset_override_count(); }
void tp_rdisc(base::lock_thread_pool& p) { p.reset_discard_count(); }
size_t tp_size(base::thread_pool& p) { return p.threads_size() + p.message_queue_size() + p.message_queue_type(); }
void tp_enq_log(base::thread_pool& p, async_logger_shr_ptr l, const base::log_msg& m) { p.enqueue_log(std::move(l), m); }
std::future<void> tp_enq_flush(base::thread_pool& p, async_logger_shr_ptr l) { return p.enqueue_flush(std::move(l)); }

// ------------------------------------------------------------------ registry front end
void rg_flush_every(std::chrono::seconds s) { flush_every(s); }
base::periodic_function* pf_make(const std::function<void()>& f, std::chrono::milliseconds m) { return new base::periodic_function(f, m); }
void pf_del(base::periodic_function* p) { p->~periodic_function(); }

// ------------------------------------------------------------------ values
base::log_msg_buf* lb_from(const base::log_msg& m) { return new base::log_msg_buf(m); }
base::log_msg_buf* lb_copy(const base::log_msg_buf& m) { return new base::log_msg_buf(m); }
base::log_msg_buf* lb_move(base::log_msg_buf& m) { return new base::log_msg_buf(std::move(m)); }
void lb_assign(base::log_msg_buf& a, const base::log_msg_buf& m) { a = m; }
void lb_massign(base::log_msg_buf& a, base::log_msg_buf& m) { a = std::move(m); }
void am_massign(base::async_msg& a, base::async_msg& m) { a = std::move(m); }
base::async_msg* am_move(base::async_msg& m) { return new base::async_msg(std::move(m)); }
base::log_msg* lm_make4(source_loc loc, level::level_enum l, fmt_string_view m, fmt_string_view n) { return new base::log_msg(loc, l, m, n); }
base::log_msg* lm_make5(sys_clock::time_point t, source_loc loc, level::level_enum l, fmt_string_view m, fmt_string_view n) { return new base::log_msg(t, loc, l, m, n); }
base::log_msg* lm_make3(level::level_enum l, fmt_string_view m, fmt_string_view n) { return new base::log_msg(l, m, n); }
base::log_msg* lm_copy(const base::log_msg& m) { return new base::log_msg(m); }
base::circular_queue<base::log_msg_buf>* cq_copy(const base::circular_queue<base::log_msg_buf>& a) { return new base::circular_queue<base::log_msg_buf>(a); }
void cq_assign(base::circular_queue<base::log_msg_buf>& a, const base::circular_queue<base::log_msg_buf>& b) { a = b; }
base::circular_queue<base::log_msg_buf>* cq_none() { return new base::circular_queue<base::log_msg_buf>(); }
void cq_move(base::circular_queue<base::log_msg_buf>& a, base::circular_queue<base::log_msg_buf>& b) { a = std::move(b); }
void bt_enable(base::backtracer& b, size_t n) { b.enable_with_size(n); }
void bt_disable(base::backtracer& b) { b.disable(); }
bool bt_enabled(base::backtracer& b) { return b.is_enabled(); }
void bt_push(base::backtracer& b, const base::log_msg& m) { b.push_back(m); }
void bt_each(base::backtracer& b, std::function<void(const base::log_msg&)> f) { b.foreach_do(std::move(f)); }
base::backtracer* bt_copy(const base::backtracer& b) { return new base::backtracer(b); }
base::backtracer* bt_move(base::backtracer& b) { return new base::backtracer(std::move(b)); }
void bt_assign(base::backtracer& a, const base::backtracer& b) { a = b; }

// ------------------------------------------------------------------ files
void fb_open(FILE** f, const filename_t& n, bool t, int tries, unsigned ms) { base::file_base::open(f, n, t, tries, ms); }
void fb_close(FILE** f, const filename_t& n) { base::file_base::close(f, n); }
void fb_flush(FILE* f, const filename_t& n) { base::file_base::flush(f, n); }
void fb_sync(FILE* f, const filename_t& n) { base::file_base::sync(f, n); }
void fb_write(FILE* f, const filename_t& n, const fmt_memory_buf& b) { base::file_base::write(f, n, b); }
u_long_long fb_size(FILE* f, const filename_t& n) { return base::file_base::size(f, n); }
size_t fb_suffix(const filename_t& n) { return base::file_base::suffix_pos(n); }
bool os_create_dir(const filename_t& n) { return base::os::create_dir(n); }
filename_t os_get_dir(const filename_t& n) { return base::os::get_dir(n); }
bool os_open_file(FILE** f, const filename_t& n, const filename_t& m) { return base::os::open_file(f, n, m); }
bool os_dir_exist(const filename_t& n) { return base::os::dir_exist(n); }
long_long os_filesize(FILE* f) { return base::os::filesize(f); }
bool os_fsync(FILE* f) { return base::os::fsync(f); }
void os_sleep(size_t ms) { base::os::sleep_for_ms(ms); }
bool os_color() { return base::os::is_color_terminal(); }
bool os_term(FILE* f) { return base::os::in_terminal(f); }
size_t os_pid() { return base::os::pid(); }
size_t os_tid() { return base::os::thread_id(); }
int os_remove(const filename_t& n) { return base::os::remove_file_if_exist(n); }
int os_rename(const filename_t& a, const filename_t& b) { return base::os::rename_file(a, b); }
void os_sec(char* b, size_t n, sys_clock::time_point t) { base::os::time_point_to_datetime_sec(b, n, t); }
void os_nsec(char* b, size_t n, sys_clock::time_point t) { base::os::time_point_to_datetime_nsec(b, n, t); }
void ex_handle(const std::string& m) { handle_excpt(m); }
void ex_throw1(const std::string& m) { throw_learnlog_excpt(m); }
void ex_throw2(const std::string& m, int e) { throw_learnlog_excpt(m, e); }
void ex_throw3(const std::string& m, int e, const source_loc& l) { throw_learnlog_excpt(m, e, l); }
int os_errno() { return base::os::get_errno(); }
std::string ex_make(const std::string& m, int e, const source_loc& l) { learnlog_excpt a(m), b(m, e), c(m, e, l); return a.what() + std::string(b.what()) + c.what(); }

// ------------------------------------------------------------------ formatting primitives
void fm_sv(fmt_string_view s, fmt_memory_buf& b) { base::fmt_base::append_string_view(s, b); }
void fm_fill_u(unsigned n, size_t len, fmt_memory_buf& b) { base::fmt_base::fill_uint(n, len, b); }
void fm_fill_i(int n, size_t len, fmt_memory_buf& b) { base::fmt_base::fill_uint(n, len, b); }
void fm_fill_ul(size_t n, size_t len, fmt_memory_buf& b) { base::fmt_base::fill_uint(n, len, b); }
milliseconds fm_ms(sys_clock::time_point t) { return base::fmt_base::precise_time<milliseconds>(t); }
microseconds fm_us(sys_clock::time_point t) { return base::fmt_base::precise_time<microseconds>(t); }
nanoseconds fm_ns(sys_clock::time_point t) { return base::fmt_base::precise_time<nanoseconds>(t); }
void fl_str(size_t n, const sinks::spaces_info& s, fmt_memory_buf& b, fmt_string_view m) { sinks::filler f(n, s, b); f.fill_msg(m); }
void fl_uint(size_t n, const sinks::spaces_info& s, fmt_memory_buf& b, unsigned m) { sinks::filler f(n, s, b); f.fill_msg(m); }
void fl_int(size_t n, const sinks::spaces_info& s, fmt_memory_buf& b, int m) { sinks::filler f(n, s, b); f.fill_msg(m); }
struct my_flag : sinks::custom_flag_formatter {
    void format(const base::log_msg&, const std::tm&, fmt_memory_buf&) override;
    std::unique_ptr<sinks::custom_flag_formatter> clone() const override;
};
void my_flag::format(const base::log_msg&, const std::tm&, fmt_memory_buf&) {}
std::unique_ptr<sinks::custom_flag_formatter> my_flag::clone() const { return nullptr; }
void pf_custom(sinks::pattern_formatter& f, char c) { f.add_custom_flag<my_flag>(c); }
void pf_set(sinks::pattern_formatter& f, std::string p) { f.set_pattern(std::move(p)); }
}  // namespace vdrv
