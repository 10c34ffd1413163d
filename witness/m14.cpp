// stop tokens, sources, callbacks and the state they share (the library's own; in the other configuration the standard's are used)
#include "macoro/config.h"
#ifndef MACORO_HAS_STD_STOP_TOKEN
#include "macoro/stop.h"
#include "macoro/detail/stop_state.cpp"
#include "macoro/detail/stop_token.cpp"
#include "macoro/detail/stop_source.cpp"
#include "vf.h"
#include <new>
using namespace macoro; using detail::stop_state;
struct Fn { void* x; Fn(Fn&&); Fn(const Fn&); ~Fn(); void operator()(); };
namespace vf {
template<class R> void* slot(R r) {
    if constexpr (requires { r.m_chunk->m_entries[r.m_entryIndex]; }) return &r.m_chunk->m_entries[r.m_entryIndex];
    else { auto& [chunk, index] = r; auto& [next, prev, free, count, entries] = *chunk; return &entries[index]; }
}
}
extern "C" {
void w_tok_def(void* p) { new (p) stop_token(); }
void w_tok_copy(void* p, stop_token& o) { new (p) stop_token(o); }
void w_tok_move(void* p, stop_token& o) { new (p) stop_token(std::move(o)); }
void w_tok_drop(stop_token& t) { t.~stop_token(); }
void w_tok_cassign(stop_token& t, stop_token& o) { t = o; }
void w_tok_massign(stop_token& t, stop_token& o) { t = std::move(o); }
void w_tok_cself(stop_token& t) { stop_token& o = t; t = o; }
void w_tok_mself(stop_token& t) { stop_token& o = t; t = std::move(o); }
void w_src_cself(stop_source& t) { stop_source& o = t; t = o; }
void w_src_mself(stop_source& t) { stop_source& o = t; t = std::move(o); }
void w_tok_swap(stop_token& t, stop_token& o) { t.swap(o); }
bool w_tok_possible(stop_token& t) { return t.stop_possible(); }
bool w_tok_requested(stop_token& t) { return t.stop_requested(); }
void w_tok_throw(stop_token& t) { t.throw_if_stop_requested(); }
void w_src_def(void* p) { new (p) stop_source(); }
void w_src_copy(void* p, stop_source& o) { new (p) stop_source(o); }
void w_src_move(void* p, stop_source& o) { new (p) stop_source(std::move(o)); }
void w_src_drop(stop_source& t) { t.~stop_source(); }
void w_src_cassign(stop_source& t, stop_source& o) { t = o; }
void w_src_massign(stop_source& t, stop_source& o) { t = std::move(o); }
bool w_src_possible(stop_source& t) { return t.stop_possible(); }
bool w_src_requested(stop_source& t) { return t.stop_requested(); }
void w_src_request(stop_source& t) { t.request_stop(); }
void w_src_token(void* p, stop_source& t) { new (p) stop_token(t.get_token()); }
void w_st_addt(stop_state& s) { s.add_token_ref(); }
void w_st_relt(stop_state& s) { s.release_token_ref(); }
void w_st_adds(stop_state& s) { s.add_source_ref(); }
void w_st_rels(stop_state& s) { s.release_source_ref(); }
bool w_st_possible(stop_state& s) { return s.stop_possible(); }
bool w_st_requested(stop_state& s) { return s.stop_requested(); }
void* w_st_create() { return stop_state::create(); }
void w_st_drop(stop_state& s) { s.~stop_state(); }
void w_st_request(stop_state& s) { s.request_stop(); }
bool w_st_register(stop_state& s, stop_callback* c) { return s.try_register_callback(c); }
void w_st_deregister(stop_state& s, stop_callback* c) { s.deregister_callback(c); }
void w_cb_new(void* p, stop_token& t, Fn& f) { new (p) stop_callback(std::move(t), std::move(f)); }
void w_cb_drop(stop_callback& c) { c.~stop_callback(); }
void* w_reg(detail::stop_callback_state& s, stop_callback* c) { return vf::slot(s.add_registration(c)); }
detail::stop_callback_list_chunk* w_chunk(std::uint32_t n) { return detail::stop_callback_list_chunk::allocate(n); }
detail::stop_callback_list* w_list() { return detail::stop_callback_list::allocate(); }
detail::stop_callback_state* w_lists() { return detail::stop_callback_state::allocate(); }
}
#endif
