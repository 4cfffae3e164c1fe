// Deterministic, schedule-controlled MPI stand-in.
//
// N ranks are forked children of one controlling process (the "network").
// Every MPI call of a rank is a request to the network; the network waits
// until all live ranks are inside an MPI call, then picks ONE enabled step
// (deliver the oldest in-flight message of some channel, or complete one
// rank's pending call) with a seeded policy.  Executions are therefore
// reproducible from (program, nranks, seed, policy), totally ordered, and
// every step is available as a trace event.  Semantics implemented: MPI
// non-overtaking per (source,dest), wildcard receives and probes, synchronous
// sends complete only when matched, standard sends are either buffered or (in
// rendezvous mode) synchronous, collectives match by order.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

struct SimConfig {
  int nranks = 1;
  uint64_t seed = 1;
  int policy = 0;        // see simmpi.cc: 0 random,1 eager,2 lazy,3 starve,4 bursty
  bool rendezvous = false; // standard-mode blocking sends complete when matched
  long max_steps = 4000000;
  int max_wall_s = 30;   // a run normally takes a second
  int compute_timeout_s = 20; // a rank computing this long without MPI call
  bool trace = false;    // record network events (sends/matches/collectives)
  bool quiet = true;     // send the ranks' stdout to /dev/null
};

struct SimEvent {
  std::string kind; // send, match, coll, log, exit
  int rank = -1;    // acting rank
  int peer = -1;
  int tag = -1;
  int len = 0;
  long id = -1;     // message id
  std::string text; // log text / collective name
  std::vector<unsigned char> data; // message payload if captured
};

struct SimResult {
  bool ok = false;
  std::string error;       // deadlock / livelock / crash / mismatch / leftover ...
  std::vector<SimEvent> events;
  std::vector<std::string> logs; // all sim_log lines, in global order
  std::vector<int> log_rank;
  long steps = 0, messages = 0, leftover = 0;
};

// Runs `body(rank)` on nranks simulated ranks.
SimResult sim_run(const SimConfig & cfg, const std::function<void(int)> & body);

// Two runs of this process took very long and failed: the caller should stop.
bool sim_tired();

// Called by a rank: append a line to the globally ordered log.
void sim_log(const std::string & line);
// Called by a rank at the start of each of its MPI calls, when set.
inline void (*sim_on_call)() = nullptr;
bool sim_active();
int sim_rank();
