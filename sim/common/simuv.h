// A simulated libuv: the uv_* functions the code under test uses, over a
// simulated clock and network, for several simulated processes in one real one.
//
// Each simulated process is a coroutine with its own uv_loop_t.  uv_run()
// returns control to the scheduler, which resumes a process for one event at a
// time; every choice (order of simultaneous events, delays, losses, chunk
// sizes) is drawn from one seeded generator.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "rng.h"

namespace simuv {

struct Proc;
extern uint64_t now;                 // simulated nanoseconds since the epoch
extern Rng *rng;

struct Opts {
    uint64_t max_wire = 2000000;     // stream and udp delays, ns
    bool eagain = false;             // spurious empty reads
    size_t chunk = 65536;            // largest piece of a stream delivered at once
    size_t window = 0;               // bytes a stream holds unread before writes wait; 0: no limit
};
extern Opts opts;

void reset(uint64_t start_ns, Rng *r);
// fn runs on the process' own stack; it is expected to call uv_run somewhere
Proc *spawn(const std::string &name, std::function<void()> fn);
void kill(Proc *p);                  // crash: everything it had is gone
bool ended(Proc *p);                 // fn returned
const std::string &name(Proc *p);
void stall(Proc *p, uint64_t until); // receives no event before that time
Proc *current();
// fn runs inside of the process' event loop, dt later
void post(Proc *p, uint64_t dt, std::function<void()> fn);
// harness events, run outside of any process
void at(uint64_t t, std::function<void()> fn);
void after(uint64_t dt, std::function<void()> fn);
bool step(uint64_t limit);           // run one event; false: nothing before limit
uint64_t events();
size_t pending_for(Proc *p);

// ---- datagrams.  Addresses are "1.2.3.4:56".
struct Verdict { int copies = 1; uint64_t delay[4] = {0, 0, 0, 0}; };
// decides what happens to a datagram
extern std::function<Verdict(const std::string &src, const std::string &dst, const std::string &data)> udp_net;
// the status a send reports (0: sent)
extern std::function<int(Proc*, const std::string &src, const std::string &dst, const std::string &data)> udp_send_status;
// a process' socket got (or dropped, when its queue is full) a datagram
extern std::function<void(Proc*, const std::string &src, const std::string &dst, const std::string &data)> udp_handed;
void udp_bind_model(const std::string &addr, std::function<void(const std::string &src, const std::string &data)> cb);
void udp_send_model(const std::string &src, const std::string &dst, const std::string &data);
extern size_t udp_rcvbuf;            // datagrams a socket queues

// ---- streams.  An end belongs to a uv handle or to the harness.
struct End;
struct Model {
    virtual ~Model(){}
    virtual void on_connect(int status){}
    virtual void on_data(const std::string &data) = 0;
    virtual void on_end(int status) = 0;   // UV_EOF or an error; exactly once
};
// the harness connects to a listener (by path or address)
End *connect(const std::string &addr, Model *m, const std::string &from = "");
// the harness listens: fn gets the new end and returns its model (or null to refuse)
void listen_model(const std::string &addr, std::function<Model*(End*, const std::string &from)> fn);
void unlisten_model(const std::string &addr);
void write(End *e, const std::string &data);
void shutdown(End *e);
void close(End *e, bool rst = false);      // no more callbacks
extern std::function<uint64_t(const std::string &from, const std::string &to)> wire_delay;
// may change what is on its way (between processes)
extern std::function<void(const std::string &from, const std::string &to, std::string &data)> wire_data;
// breaks the established connections to (or from) an address: both sides see a
// reset, or (fin) both sides see the other end its stream there
int cut(const std::string &addr, bool fin);
// decides an outgoing connection: 0 to go on, a uv error to fail, 1 to never answer
extern std::function<int(Proc*, const std::string &to)> conn_status;

// ---- name resolution: node -> addresses ("1.2.3.4"), or a uv error
extern std::function<int(const std::string &node, std::vector<std::string> &out)> resolve;
}
