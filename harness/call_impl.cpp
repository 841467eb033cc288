/* the real translation unit, plus access to its private implementation class */
#include "call_dispatcher.cpp"
extern "C" {
std::atomic_bool* vfa_stop(veigar::detail::CallDispatcher* d) { return &d->impl_->stop_; }
std::shared_ptr<veigar::MessageQueue>* vfa_queue(veigar::detail::CallDispatcher* d) { return &d->impl_->callMsgQueue_; }
std::vector<std::thread>* vfa_workers(veigar::detail::CallDispatcher* d) { return &d->impl_->workers_; }
}
