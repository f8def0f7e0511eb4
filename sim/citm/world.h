#pragma once
#include "../common/core.h"
#include "../common/vfs.h"
#include "../common/codec.h"
#include "../common/keys.h"
#include "../common/mem.h"
#include "glue.h"
#include "imap.h"
#include <memory>
#include <deque>
#include <functional>
#include <csetjmp>
#include <unordered_map>

using namespace core;
using std::string;
using std::vector;
using std::map;
using std::set;
using std::pair;
using std::unique_ptr;

enum Kind { K_ENC = 0, K_PLAIN, K_NOSUBJ, K_NOT4ME, K_CORRUPT, K_LOCALALERT };

// a distinct piece of mail content
struct Content {
    uint64_t xid = 0;
    int kind = K_ENC;
    string plain;       // what the sender wrote
    string raw;         // as stored on the server
    vector<string> recips; // fingerprints it is encrypted to
};

// one message instance on the server
struct Msg {
    uint64_t sid = 0;
    uint32_t uid = 0;
    Content *c = nullptr;
    string raw;
    int flags = 0;
    uint64_t modseq = 0;
    string date;
    // oracle data
    int init_flags = 0;
    uint64_t born = 0;
    struct DevW { uint64_t at; int set, clr; };
    vector<DevW> devw;
    int ever = 0;       // flags this message ever had on the server
    uint64_t boxid = 0;
    uint32_t uidvld = 0;
    int acct = 0;
    uint64_t died = 0;  // when it was expunged
    bool uploaded = false; // by the citm, with APPEND or COPY
    bool untold = false;   // uploaded, and expunged before every connection knew it
    bool hidden = false; // not decryptable by our key
};

struct Box {
    uint64_t id = 0;
    string name;
    set<string> names;
    uint32_t uidvld = 0, uidnext = 1;
    uint64_t himod = 1;
    vector<Msg*> msgs;                       // ascending uid
    vector<pair<uint32_t,uint64_t>> gone;    // uid, modseq
    bool subscribed = true, dead = false;
    int ghosts = 0;                          // messages the known finding upload-ghost may apply to
    Msg *find(uint32_t uid){ for(auto m : msgs) if(m->uid == uid) return m; return nullptr; }
};

struct Account {
    int idx = 0;
    string user, pass;
    const codec::Key *mykey = nullptr;       // what the citm holds locally
    map<string, unique_ptr<Box>> boxes;
    vector<unique_ptr<Box>> graveyard;
    map<string, string> keys;                // fpr -> pem
    uint32_t next_uidvld = 100;
    // oracle
    bool refused_select = false;             // the server said NO to a SELECT
    bool keysync_done_once = false;          // a full keysync has completed
    map<string, uint64_t> must_alert;        // fpr -> event it was pushed at
    set<string> may_alert;
    set<string> never_alert, seen_ever;
    Box *box(const string &n){
        string k = !strcasecmp(n.c_str(), "INBOX") ? "INBOX" : n;
        auto it = boxes.find(k);
        return it == boxes.end() ? nullptr : it->second.get();
    }
};

struct SrvConn;
struct Client;

// a connection between the citm and a model peer
struct Pipe {
    int id = 0;
    bool up = false;            // true: citm <-> server
    gl_conn *g = nullptr;
    gl_stream *s = nullptr;
    string to_citm;
    bool peer_eof = false;      // peer closed its sending side
    bool eof_fed = false;
    int reset = 0;              // GL_* to end with, when possible
    bool peer_gone = false;     // peer no longer reads
    bool dead = false;          // nothing will happen here any more
    int64_t hold_to_until = 0, hold_from_until = 0; // stalls, in steps
    int chunk = 0;              // segmentation style
    int weight = 4;
    SrvConn *sc = nullptr;
    Client *cl = nullptr;
};

struct SrvCmd { string line; string tag; };

struct SrvConn {
    int id = 0;
    Pipe *pipe = nullptr;
    Framer in;
    std::deque<string> cmds;
    bool closed = false;
    Account *acct = nullptr;
    Box *box = nullptr;
    bool readonly = false, qresync = false;
    bool is_xkey = false, refused_login = false;
    int refused_idle = 0;
    int nkeysync = 0;
    string idle_tag, xkey_tag;
    set<string> xk_known;                 // fprs the peer knows about
    vector<uint32_t> view;
    map<uint32_t, uint64_t> notified;
    string selected_name;
};

// flag write by a mail client, as an interval
struct WRec {
    int sess; uint64_t start, end;        // end = ~0 while (or for ever) unacknowledged
    int setm, clrm;
    bool refused;
    bool implicit = false;                // \Seen by reading a body, if not seen yet as far as that session knows
};
struct DnMsg {
    uint32_t uid = 0;
    uint64_t xid = 0;                     // 0: not known
    uint64_t first_seen = 0;
    bool alert = false;
    string alert_fpr;
    uint64_t bodyhash = 0; size_t size = 0; bool have_body = false;
    string date; bool have_date = false;
    bool complete() const { return have_body && have_date; }
    uint64_t expunged_at = 0;             // a client was told of the expunge
    vector<WRec> writes;
};
struct DnEpoch {
    uint32_t uidvld = 0;
    map<uint32_t, DnMsg> msgs;
    uint32_t full_max = 0;                // highest uid of any complete view
    uint32_t uidnext_seen = 0;
    uint64_t first_seen = 0;
};
struct Intent { int sess; uint64_t start, sel_at; uint32_t uidvld; };
struct DnBox {                            // per (account, name) as clients see it
    map<uint32_t, DnEpoch> epochs;
    uint64_t last_expunge_intent = 0;     // newest EXPUNGE/CLOSE sent
    vector<WRec> star_writes;             // to messages not known when it was sent
    vector<Intent> intents;               // EXPUNGE or CLOSE commands sent
    uint32_t last_uidvld = 0;
};

struct VEnt { uint32_t uid = 0; int flags = -1; uint64_t since = 0; };
struct View {
    string name;
    bool ro = false;
    uint32_t uidvld = 0, uidnext = 0, unseen = 0;
    vector<VEnt> e;
    bool full = false;
    uint64_t selected_at = 0;
    uint32_t floor = 0;                   // full_max when SELECT was sent
    bool got_exists = false;
    map<uint32_t,uint32_t> floors;        // full_max of every epoch when SELECT was sent
};

enum Op {
    O_LOGIN, O_SELECT, O_EXAMINE, O_NOOP, O_CHECK, O_META, O_BODY, O_STORE, O_EXPUNGE,
    O_CLOSE, O_COPY, O_APPEND, O_SEARCH, O_IDLE, O_LIST, O_LSUB, O_STATUS, O_CREATE,
    O_DELETE, O_RENAME, O_SUB, O_UNSUB, O_LOGOUT, O_CAPA, O_UNSUP, O_GARBAGE, O_BADLOGIN,
    O_DISC, O_FETCHMIX, O_NOPS
};
extern const char *const OP_NAMES[O_NOPS];

struct Cmd {
    int op = 0;
    int64_t a = 0, b = 0, c = 0;
    bool uidmode = false, silent = false, star = false, is_auto = false;
    string tag, text, lit;                // lit: literal to send after '+'
    bool lit_sent = false;
    uint64_t start = 0;
    string box, box2;
    vector<uint32_t> uids;                // targets of STORE/COPY/BODY
    set<uint32_t> got;                    // uids answered
    int setm = 0, clrm = 0;
    int nunseen = 0;
    bool expect_bad = false;
    bool got_plus = false, done_sent = false, nonpeek = false;
    int part = 0; bool mkpart = false; size_t poff = 0, plen = 0;
    Content *content = nullptr;
    map<string, uint32_t> status;
    bool got_status = false, got_search = false;
    vector<uint32_t> search;
    set<string> listed;
    vector<VEnt> pre;                     // view when sent
    bool was_auto_settle = false;
    int append_flags = 0; string append_date;
};

struct Client {
    int id = 0;
    Account *acct = nullptr;
    Pipe *pipe = nullptr;
    Framer in;
    bool greeted = false, auth = false, bye = false, closed = false, want_logout = false;
    bool sent_logout = false;
    bool bad_pass = false;
    bool selected = false;
    View v;
    View nv;                              // being selected
    std::deque<Cmd> queue;
    std::deque<unique_ptr<Cmd>> inflight;
    int tagn = 0;
    int ncmd = 0;
    int conn_no = 0;
    string last_box;
    bool excused = false;                 // a fault touched this connection
};

struct Connect { gl_connect *cn; int id; bool fail; int64_t hold_until; };

struct World {
    const Plan &plan;
    Rng rng;
    gl_sched *sched = nullptr;
    gl_citm *citm = nullptr;
    bool canceling = false;
    int incarnation = 0;
    uint64_t step = 0;                    // logical clock of the whole run
    int64_t simms = 0;
    vector<unique_ptr<codec::Key>> keypool;
    vector<unique_ptr<Account>> accts;
    vector<unique_ptr<Pipe>> pipes;
    vector<unique_ptr<SrvConn>> srv;
    vector<unique_ptr<Client>> clients;
    std::deque<Connect> connects;
    map<uint64_t, unique_ptr<Content>> contents;
    std::unordered_map<uint64_t, Content*> by_raw;
    vector<unique_ptr<Msg>> msgpool;
    map<pair<int,string>, DnBox> dn;
    uint64_t next_xid = 1, next_sid = 1, next_boxid = 1;
    int next_pipe = 1;
    bool settling = false;
    bool faulty = false;                  // any fault was injected in this run
    bool disk_faulty = false;             // any disk or crash fault was injected
    bool power_faulty = false;
    bool uidvld_changed = false;
    bool faulty_mem = false;              // memory was abandoned, or reported
    int64_t skew = 0;
    int srvno = 0;                        // commands until a server NO
    int connfail = 0;
    // crash plumbing
    jmp_buf jb;
    bool in_citm = false;
    bool crashed = false;
    bool stop() const { return cx->violated; }

    explicit World(const Plan &p) : plan(p), rng(p.seed * 0x9e3779b97f4a7c15ull + 77) {}
    set<string> infile;                   // mailbox folder,uid: messages the citm stored a file for
    // ---- world.cc
    void run();
    void setup();
    void start_citm();
    void age_logs();
    void do_item(const Item &it);
    bool one_event();                     // false: nothing enabled
    void quiesce(int64_t cap, const char *what);
    void settle();
    template<class F> void enter(F f);
    void after_crash(bool power);
    void restart_clean();
    void kill_all_pipes();
    void pump();                          // run the citm's scheduler
    Pipe *new_pipe(gl_conn *g, bool up);
    void check_stuck(const char *when);
    uint64_t abstract_state();
    size_t segment(Pipe *p, size_t have);
    // ---- server.cc
    void srv_bytes(SrvConn *c, const string &b);
    void srv_exec(SrvConn *c);
    bool srv_can_push(SrvConn *c);
    void srv_push(SrvConn *c);
    void srv_send(SrvConn *c, const string &s);
    void srv_close(SrvConn *c);
    void srv_sync(SrvConn *c, bool expunges, bool fetches = true);
    void srv_select(SrvConn *c, const string &tag, vector<Tok> &t, bool ro);
    void srv_fetch(SrvConn *c, const string &tag, vector<Tok> &t);
    void srv_store(SrvConn *c, const string &tag, vector<Tok> &t);
    string srv_fetch_line(SrvConn *c, Msg *m, const string &attrs);
    Box *make_box(Account *a, const string &name);
    Msg *deliver(Account *a, Box *b, Content *c, int flags, const string &date);
    void expunge_msg(Account *a, Box *b, Msg *m);
    void touch(Box *b, Msg *m);
    void drop_box_conns(Account *a, Box *b);
    void dev_op(const Item &it);
    // what the other devices do to a message soon after something happened to it
    struct Story { uint64_t due; Account *a; Box *b; Msg *m; int act; };
    vector<Story> stories;
    void story(Account *a, Box *b, Msg *m, bool fresh);
    void dev_flags(Account *a, Box *b, Msg *m, int set, int clr);
    void tell(size_t i);
    void late(SrvConn *c, Box *b, Msg *m);
    Content *make_content(Account *a, int kind, int64_t size_hint);
    void key_add(Account *a, const codec::Key *k);
    void key_del(Account *a, const string &fpr);
    string rand_date();
    // ---- client.cc
    void cli_bytes(Client *c, const string &b);
    void cli_line(Client *c, const string &l);
    void cli_connect(Client *c);
    void cli_disconnect(Client *c, bool rst);
    bool cli_can_send(Client *c);
    void cli_send(Client *c);
    bool cli_build(Client *c, Cmd &m);
    void cli_queue(Client *c, Cmd m);
    void cli_tagged(Client *c, const string &tag, const string &st, const string &rest);
    void cli_untagged(Client *c, const string &l);
    void cli_fetch(Client *c, uint32_t seq, const Tok &attrs, const string &l);
    void cli_followups(Client *c);
    void cli_closed(Client *c, bool clean);
    void sess_op(const Item &it);
    void learn_body(Client *c, DnBox &db, DnEpoch &ep, DnMsg &m, const string &body);
    DnBox &dnbox(Account *a, const string &n){ return dn[{a->idx, !strcasecmp(n.c_str(), "INBOX") ? "INBOX" : n}]; }
    DnEpoch *cli_epoch(Client *c){
        if(!c->selected) return nullptr;
        auto &d = dnbox(c->acct, c->v.name);
        return &d.epochs[c->v.uidvld];
    }
    // ---- oracle.cc
    void ora_store(SrvConn *c, Msg *m, int setm, int clrm);
    void ora_expunge(SrvConn *c, Msg *m);
    void ora_check_final(Account *a, Box *b, Client *c);
    void ora_read_flags(Client *c, DnEpoch *ep, uint32_t uid, int flags);
    bool bit_possible(const vector<Msg*> &inst, const vector<WRec> &w, int bit, bool val, int sess, uint64_t lb, uint64_t sel_at);
    vector<WRec> writes_of(int acct, const string &box, uint64_t xid, bool wild, const DnEpoch *here = nullptr);
    bool maybe_ghost(Client *c, uint32_t uid);
    bool had_ghost(Account *a, const string &box);
    vector<Msg*> instances(Account *a, const set<string> &names, uint64_t xid);
    void ora_expunge_acked(Client *c, Cmd &m);
    void conv_fail(const char *extra, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    Content *identify(const string &body);
    bool body_ok(Content *c, const string &body, string &why);
    void check_paths(const char *op, const string &path);
    // exactly-once bookkeeping: (account, box name, xid)
    map<std::tuple<int,string,uint64_t>, int> copy_asked, copy_done, copy_ok;
    map<std::tuple<int,string,uint64_t>, vector<int>> copy_conn;
    bool srv_conn_lost(int id);
    uint64_t nobox_at = 0;                   // the server last refused a COPY for want of a target
    map<pair<int,string>, int> copy_unknown;  // COPYs of messages not yet identified
    int copy_wild(int a, const string &b){ auto it = copy_unknown.find({a, b}); return it == copy_unknown.end() ? 0 : it->second; }
    map<uint64_t, int> app_asked, app_done, app_ok;
    bool clock_went_back = false;
    set<int> alert_copied;                // accounts whose clients may have copied an alert
    bool box_gone = false;                // a mailbox went away, or its uids did
    bool excused(Client *c){ return faulty || box_gone || c->excused; }
    // this message, or one of several with its content, has been expunged
    bool any_died(Box *b, uint64_t xid, Account *a){
        auto in = instances(a, b->names, xid);
        if(in.empty()) return true;
        for(auto m : in) if(m->died) return true;
        return false;
    }
    vector<Msg*> live_by_xid(Box *b, uint64_t xid){
        vector<Msg*> o;
        for(auto m : b->msgs) if(m->c && m->c->xid == xid) o.push_back(m);
        return o;
    }
};
extern World *W;
extern const char *ROOT;
bool same_date(const string &a, const string &b);

// run code of the citm; a simulated crash unwinds to here
template<class F> __attribute__((noinline)) void World::enter(F f){
    if(!citm && !sched) return;
    int r = setjmp(jb);
    if(r){
        cx->ev("the citm %s", r == 2 ? "loses power" : "crashes");
        cx->count(r == 2 ? "fault_powerloss" : "fault_crash");
        crashed = true;
        after_crash(r == 2);
        return;
    }
    in_citm = true;
    f();
    in_citm = false;
}

