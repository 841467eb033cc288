/* the real translation unit, plus access to its private implementation class */
#include "veigar.cpp"
namespace {
template <class I> auto counter(I* i, int) -> decltype(&i->callIndex_) { return &i->callIndex_; }
template <class I> std::atomic<uint32_t>* counter(I*, long) { return nullptr; }
}
extern "C" {
std::string* vfa_uuid(veigar::Veigar* v) { return &v->impl_->uuid_; }
std::atomic<uint32_t>* vfa_counter(veigar::Veigar* v) { return counter(v->impl_, 0); }
void* vfa_memory(veigar::Veigar* v, int64_t* n) { *n = sizeof(*v->impl_); return v->impl_; }
std::shared_ptr<veigar::RespDispatcher>* vfa_resp(veigar::Veigar* v) { return &v->impl_->respDispatcher_; }
std::shared_ptr<veigar::Sender>* vfa_sender(veigar::Veigar* v) { return &v->impl_->sender_; }
}
