/* Contracts of the messages of a call: what is packed for a call and for its response is read back by the receiver as it was. The packer, buffer,
 * unpacker, parser, visitor, zone, conversions and Response::getData are the real code. */
#include "vf.h"
#include <string.h>
#include <string>
#include <limits>
#include "veigar/veigar.h"
#include "veigar/detail/response.h"
namespace mp = veigar_msgpack;
using veigar::detail::Response;

// room for everything from the start: growing the buffers is the subject of the unit wirelen (l_append, l_two)
#ifdef VF_VERIFIER
extern "C" void vfx__ZN14veigar_msgpack2v17sbufferC2Em(mp::sbuffer* b, size_t) {
    b->m_size = 0;
    b->m_alloc = (size_t)1 << 40;
    b->m_data = (char*)malloc((size_t)1 << 40);
}
#endif
struct Unpacker : mp::unpacker {
    explicit Unpacker(const mp::sbuffer& b) : mp::unpacker(&mp::unpacker::default_reference_func, 0, b.size() + 64) {}
};
static bool receive(mp::unpacker& p, const char* d, size_t n, mp::object_handle& h) {
    p.reserve_buffer(n);
    memcpy(p.buffer(), d, n);
    p.buffer_consumed(n);
    return p.next(h);
}
static std::string text(const char* what) {
    std::string s = vf_string(what);
    vf_assume(s.size() <= 0xffffffffu);
    return s;
}

VF_HARNESS(p_string) {
    std::string s = text("text");
    mp::sbuffer b;
    mp::pack(b, s);
    Unpacker p(b);
    mp::object_handle h;
    bool got = receive(p, b.data(), b.size(), h);
    vf_assert(got && h.get().type == mp::type::STR, "C20/a packed text is read back");
    std::string r = h.get().as<std::string>();
    vf_assert(vf_str_eq(r, s), "C20/a packed text is read back unchanged");
    vf_cover("p_string:end");
}

/* ---- a response: what the server packs, and what the client reads (as CallDispatcher and RespDispatcher do) */
namespace resp {
using Msg = Response::ResponseMsg;
static void read(const mp::sbuffer& b, mp::unpacker& p, mp::object_handle& h, Msg& m) {
    bool got = receive(p, b.data(), b.size(), h);
    vf_assert(got && p.nonparsed_size() == 0, "C11,C12,C20/a packed response is read back");
    const mp::object& o = h.get();
    vf_assert(o.type == mp::type::ARRAY && o.via.array.size == 4, "C11,C12/a response is an array of four values");
    o.convert(m);
    vf_assert(std::get<0>(m) == 1, "C11,C12/a response carries the response flag");
}
}
VF_HARNESS(p_error) {
    std::string id = text("call id"), e = text("error");
    Response r = Response::MakeResponseWithError(id, std::string(e));
    mp::sbuffer b = r.getData();
    Unpacker p(b);
    mp::object_handle h;
    resp::Msg m;
    resp::read(b, p, h, m);
    vf_assert(vf_str_eq(std::get<1>(m), id), "C11,C12/a response carries the id of its call");
    vf_assert(std::get<2>(m).type == mp::type::STR && vf_str_eq(std::get<2>(m).as<std::string>(), e), "C11,C12/a response with an error carries its text");
    vf_assert(std::get<3>(m).is_nil(), "C11,C12/a response with an error carries no result");
    vf_cover("p_error:end");
}
// numbers of every width: unit wire
static int64_t number(const char* n) { return vf_range(n, -2147483648LL, 4294967295LL); }
// the result of a bound function, as bind() makes it
template <typename T> static std::unique_ptr<mp::object_handle> made(const T& v) {
    auto z = veigar::detail::make_unique<mp::zone>();
    mp::object o(v, *z);
    return veigar::detail::make_unique<mp::object_handle>(o, std::move(z));
}
template <typename T> static void result(mp::unpacker*& pp, mp::object_handle& h, resp::Msg& m, const T& v) {
    std::string id = text("call id");
    Response r = Response::MakeResponseWithResult(id, made(v));
    mp::sbuffer b = r.getData();
    pp = new Unpacker(b);
    resp::read(b, *pp, h, m);
    vf_assert(vf_str_eq(std::get<1>(m), id), "C11,C12/a response carries the id of its call");
    vf_assert(std::get<2>(m).is_nil(), "C11,C12/a response with a result carries no error");
}
VF_HARNESS(p_result_int) {
    int64_t v = number("result");
    mp::unpacker* p = 0; mp::object_handle h; resp::Msg m;
    result(p, h, m, v);
    vf_assert(std::get<3>(m).as<int64_t>() == v, "C11,C12/a response carries the result");
    delete p;
    vf_cover("p_result_int:end");
}
VF_HARNESS(p_result_text) {
    std::string v = text("result");
    mp::unpacker* p = 0; mp::object_handle h; resp::Msg m;
    result(p, h, m, v);
    vf_assert(vf_str_eq(std::get<3>(m).as<std::string>(), v), "C11,C12/a response carries the result");
    delete p;
    vf_cover("p_result_text:end");
}
VF_HARNESS(p_result_nothing) {
    mp::unpacker* p = 0; mp::object_handle h; resp::Msg m;
    std::string id = text("call id");
    Response r = Response::MakeResponseWithResult(id, veigar::detail::make_unique<mp::object_handle>());
    mp::sbuffer b = r.getData();
    Unpacker u(b);
    resp::read(b, u, h, m);
    vf_assert(vf_str_eq(std::get<1>(m), id), "C11,C12/a response carries the id of its call");
    vf_assert(std::get<2>(m).is_nil() && std::get<3>(m).is_nil(), "C11,C12/the response of a function without result carries neither error nor result");
    vf_cover("p_result_nothing:end");
}

/* ---- a call: what the client packs (Veigar::asyncCall, unit async), and what the server reads (CallDispatcher) */
namespace callm {
using Msg = std::tuple<int8_t, std::string, std::string, std::string, mp::object>;
}
static void call(const std::string& id, const std::string& from, const std::string& name, int64_t n, const std::string& arg) {
    auto args = std::make_tuple(n, arg);
    auto c = std::make_tuple(0, id, from, name, args);
    mp::sbuffer b;
    mp::pack(b, c);
    Unpacker p(b);
    mp::object_handle h;
    bool got = receive(p, b.data(), b.size(), h);
    vf_assert(got && p.nonparsed_size() == 0, "C12,C20/a packed call is read back");
    const mp::object& o = h.get();
    vf_assert(o.type == mp::type::ARRAY && o.via.array.size == 5, "C12/a call is an array of five values");
    callm::Msg m;
    o.convert(m);
    vf_assert(std::get<0>(m) == 0 && vf_str_eq(std::get<1>(m), id) && vf_str_eq(std::get<2>(m), from) && vf_str_eq(std::get<3>(m), name),
              "C12/a call carries its flag, id, caller and function");
    const mp::object& a = std::get<4>(m);
    vf_assert(a.type == mp::type::ARRAY && a.via.array.size == 2, "C12/a call carries its arguments");
    std::tuple<int64_t, std::string> r;
    a.convert(r);
    vf_assert(std::get<0>(r) == n && vf_str_eq(std::get<1>(r), arg), "C12/a call carries its arguments");
}
// texts and numbers of every length: p_string, p_result_int, unit wire; here one of them is of any length, and the others are shorter than 32 bytes
static std::string shortText(const char* what) {
    std::string s = vf_string(what);
    vf_assume(s.size() < 32);
    return s;
}
VF_HARNESS(p_call_id) { call(text("call id"), shortText("caller"), shortText("function"), vf_range("number", -32, 127), shortText("argument")); vf_cover("p_call_id:end"); }
VF_HARNESS(p_call_from) { call(shortText("call id"), text("caller"), shortText("function"), vf_range("number", -32, 127), shortText("argument")); vf_cover("p_call_from:end"); }
VF_HARNESS(p_call_name) { call(shortText("call id"), shortText("caller"), text("function"), vf_range("number", -32, 127), shortText("argument")); vf_cover("p_call_name:end"); }
VF_HARNESS(p_call_args) { call(shortText("call id"), shortText("caller"), shortText("function"), vf_range("number", -32, 127), text("argument")); vf_cover("p_call_args:end"); }
VF_HARNESS(p_call_number) { call(shortText("call id"), shortText("caller"), shortText("function"), number("number"), shortText("argument")); vf_cover("p_call_number:end"); }
