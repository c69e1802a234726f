// A simulated deployment: one server with its tables, and what the scenarios
// know about the data that clients write to it.
#ifndef VERIF_HARNESS_WORLD_H_
#define VERIF_HARNESS_WORLD_H_

#define VERIF_SIM_NET_FULL 1
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "harness/ckpt_model.h"
#include "harness/oracle.h"
#include "reverb/cc/chunker.h"
#include "reverb/cc/client.h"
#include "reverb/cc/platform/server.h"
#include "reverb/cc/reverb_service_async_impl.h"
#include "reverb/cc/reverb_service_impl.h"
#include "reverb/cc/support/signature.h"
#include "reverb/cc/trajectory_writer.h"
#include "sim/net.h"
#include "tensorflow/core/framework/tensor.h"

namespace harness {

// The type of a column. shape excludes the time dimension.
struct ColSpec {
  tensorflow::DataType dtype = tensorflow::DT_INT64;
  std::vector<int64_t> shape;
};
ColSpec RandomColSpec(int stream);
std::string Str(const ColSpec& c);
tensorflow::Tensor MakeCell(const ColSpec& c, uint64_t seed);
bool SameTensor(const tensorflow::Tensor& a, const tensorflow::Tensor& b);
tensorflow::Tensor Stack(const std::vector<tensorflow::Tensor>& rows);

struct Cell {
  tensorflow::Tensor value;
  int episode = -1;  // of the writer, -1: unknown
  int step = -1;
};

struct ColumnExp {
  std::vector<Cell> rows;
  bool squeeze = false;
};

// An item that a client created, or may have created.
struct Expected {
  int id = 0;
  int writer = 0;
  int order = 0;          // among the writer's items
  std::string table;
  double priority = 0;    // unique, identifies the item
  std::vector<ColumnExp> cols;
  uint64_t key = 0;       // 0: not seen yet
  int inserts = 0, updates = 0;
  int client_sends = 0, server_reads = 0;
  bool confirmed = false;          // the client read its confirmation
  bool must_not_arrive = false;    // the call that creates it failed
  bool acked = false;              // the client was told that it is stored
  uint64_t first_insert = 0;       // order over all tables
  int last_conn = -1;
  uint64_t created = 0;            // step at which the creating call returned
  bool may_be_lost = false;        // the server crashed before it was applied
  bool after_error = false;        // created after the writer reported an error
};

// Compares the data of an item with what was written. Empty if equal.
std::string CompareItem(
    const rv::FlatTrajectory& t,
    const std::vector<std::shared_ptr<rv::ChunkStore::Chunk>>& chunks,
    const Expected& e, std::string* episodes);

// A sample operation of a table.
struct SampleOp {
  Ev ev;
  struct ServerTable* table = nullptr;
  size_t index = 0;        // among the table's sample operations
  int conn = -1;           // stream on which the server sent it
  bool read = false;       // the client read it
  bool consumed = false;   // some caller got it
};

// A sample that a client read completely.
struct SampleRead {
  SampleOp* op = nullptr;
  int conn = 0;
  int64_t at_ns = 0;
  bool rate_limited = false;
  bool consumed = false;
};

// What is known of a sample while its messages are written or read.
struct SampleParse {
  bool open = false;
  SampleOp* op = nullptr;
  bool rate_limited = false;
  uint64_t key = 0;
  std::multiset<uint64_t> want, got;
  int complete = 0;
};
struct SampleConnState {
  int64_t requested = 0;   // read by the server
  std::map<std::string, int64_t> last_index;      // by table
  // The requests that the server read: table and number of samples.
  std::vector<std::pair<std::string, int64_t>> requests;
  // The table which the n-th sample must be from.
  std::string TableOf(int64_t n) const {
    for (auto& r : requests) {
      if (n < r.second) return r.first;
      n -= r.second;
    }
    return requests.empty() ? "" : requests.back().first;
  }
  SampleParse server, client;
};

struct ServerTable {
  TableSpec spec;
  std::unique_ptr<TableOracle> oracle;
  std::shared_ptr<rv::Table> table;
  std::vector<ColSpec> signature;   // flattened; meaningful if has_signature
  std::vector<bool> has_time;       // column has a time dimension
  bool has_signature = false;
  absl::optional<tensorflow::StructuredValue> sig;
  std::unique_ptr<TableLog> log;    // of the current life of the server
  std::vector<std::unique_ptr<SampleOp>> ops;
  std::map<std::pair<uint64_t, int>, std::vector<SampleOp*>> ops_of;
  std::function<void(SampleOp*)> on_sample;  // under the table's lock
};

// State of one insert stream, as seen on the wire.
struct InsertConnState {
  std::set<uint64_t> held;          // chunks the server holds for the client
  std::set<uint64_t> last_chunks;   // of the last request
  // When the writer decided not to keep a chunk, at the earliest.
  std::map<uint64_t, uint64_t> dropped;
  std::set<uint64_t> again;         // sent again since the last item
  uint64_t prev_write = 0;          // step of the previous message
  std::deque<uint64_t> unconfirmed; // read by the server, to be confirmed
  int in_flight = 0;                // sent by the client, not confirmed to it
  int items_read = 0;
  int64_t last_order = -1;
};

class World : public reverbsim::NetObserver {
 public:
  World();
  ~World() override;

  // `steps`: the signature describes single steps (legacy writers).
  ServerTable* AddTable(const TableSpec& spec, bool signature = false,
                        bool steps = false);
  ServerTable* Find(const std::string& name);
  void Start(bool async,
             std::shared_ptr<rv::Checkpointer> checkpointer = nullptr);
  // As Start, but loading may fail.
  absl::Status TryStart(bool async,
                        std::shared_ptr<rv::Checkpointer> checkpointer);
  // The server's process stops at this moment. Its tables are gone; they are
  // built anew and wait for TryStart.
  void Crash();
  void NewTables();
  // The tables are logged from now on.
  void StartLogs();
  ChunkData* chunk_data = nullptr;  // to be filled with all data sent
  // Ends the server like a process that shuts down in an orderly way.
  void Stop();
  std::shared_ptr<rv::ReverbService::StubInterface> Stub() {
    return reverbsim::MakeStub(&ep);
  }
  // Takes samples from all tables until told to stop, so that inserts which
  // wait for the limiter proceed.
  void StartDrain();
  void StopDrain();

  // Registers an item that is about to be created.
  Expected* NewItem(int writer, const std::string& table);
  double NextPriority() { return 1 + (++n_priority_) / 1048576.0; }

  // Whether retransmission after a lost confirmation may insert twice.
  void CheckEnd();
  Expected* FindItem(double priority);

  reverbsim::Endpoint ep;
  bool async = false;
  std::unique_ptr<rv::ReverbServiceImpl> sync_service;
  std::unique_ptr<rv::Server> server;        // instead of sync_service
  std::unique_ptr<rv::ReverbServiceAsyncImpl> async_service;
  std::vector<std::unique_ptr<ServerTable>> tables;
  std::vector<std::unique_ptr<Expected>> items;
  std::map<uint64_t, Expected*> by_key;
  std::map<std::string, std::pair<int, int>> episode_of;  // chunk's episode id
  std::map<std::pair<int, int>, std::string> id_of_episode;
  std::string writer_props = "W02";          // unless in props_of_writer
  std::map<int, std::string> props_of_writer;
  std::string PropsOf(const Expected* e) const {
    auto it = props_of_writer.find(e->writer);
    return it == props_of_writer.end() ? writer_props : it->second;
  }
  // Legacy writer's limit of items in flight (0: none) by client node.
  std::map<int, int> in_flight_limit;
  std::set<int> legacy_nodes;       // where legacy writers run
  // Writers whose order is kept on each stream only.
  std::set<int> loose_order;
  // Samples that clients read, by node.
  std::map<int, std::vector<std::unique_ptr<SampleRead>>> reads;
  std::map<reverbsim::Conn*, std::unique_ptr<SampleConnState>> sample_conns;
  // Inserts an item of random data directly into a table. False: timeout or
  // closed.
  bool Feed(ServerTable* t, int stream, int writer, bool same_length,
            absl::Duration timeout);
  std::function<void(ServerTable*, const Ev&)> on_event;
  std::function<void(reverbsim::UnaryCall*)> on_unary_start, on_unary_end,
      on_unary_sent;
  void UnarySent(reverbsim::UnaryCall* c) override {
    if (on_unary_sent) on_unary_sent(c);
  }
  void UnaryStart(reverbsim::UnaryCall* c) override {
    if (on_unary_start) on_unary_start(c);
  }
  void UnaryEnd(reverbsim::UnaryCall* c) override {
    if (on_unary_end) on_unary_end(c);
  }
  // Draws the table's signature.
  void NewSignature(ServerTable* t, bool steps);
  bool unknown_items_ok = false;    // raw clients write what they like
  std::map<reverbsim::Conn*, std::unique_ptr<InsertConnState>> insert_conns;
  bool stopping = false;

  void ClientWrite(reverbsim::Conn* c,
                   const google::protobuf::Message& m) override;
  void ServerRead(reverbsim::Conn* c,
                  const google::protobuf::Message& m) override;
  void ServerWrite(reverbsim::Conn* c,
                   const google::protobuf::Message& m) override;
  void ClientRead(reverbsim::Conn* c,
                  const google::protobuf::Message& m) override;
  void ServerDone(reverbsim::Conn* c, const grpc::Status& s) override;

 private:
  void InitTable(ServerTable* t);
  void StopServer();
  std::vector<std::unique_ptr<TableLog>> old_logs_;
  void OnInsert(ServerTable* t, const rv::ExtensionItem& item);
  InsertConnState* Insert(reverbsim::Conn* c);
  SampleConnState* Sample(reverbsim::Conn* c);
  void Parse(reverbsim::Conn* c, SampleParse* p, bool server,
             const rv::SampleStreamResponse& r);
  uint64_t n_fed_ = 0;
  std::map<ServerTable*,
           std::pair<std::shared_ptr<std::function<void(const absl::Status&)>>,
                     std::shared_ptr<bool>>> feed_held;
  double priority_of_ = 0;
  uint64_t n_priority_ = 0;
  uint64_t insert_seq_ = 0;
  std::map<double, Expected*> by_priority_;
  bool draining_ = false;
  std::vector<reverbsim::Fiber*> drains_;
};

// Limiters under which writers may wait, but never all parties for ever as
// long as samples are taken.
LimiterSpec LiveLimiter();
LimiterSpec OpenLimiter();

}  // namespace harness
#endif
