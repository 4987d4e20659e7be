// Stand-in for the (absent) axi-interconnect-kit: a memory-backed crossbar
// whose acceptance, latency, response order and sampling points are drawn from
// a per-case seed, i.e. it *is* the schedule generator for the memory side.
#pragma once
#include "AXI_Interconnect_IO.h"
#include "SimDDR.h"
#include <deque>
#include <functional>
#include <vector>

namespace axi_interconnect {
struct AXI_LLCConfig {
  bool enable = false;
  uint64_t size_bytes = 0;
  uint32_t ways = 0, mshr_num = 0, lookup_latency = 0, line_bytes = 64;
  // The stand-in has no last-level cache: report the configuration as not
  // usable so that no tables are allocated for it.
  bool valid() const { return false; }
  uint32_t set_count() const { return 0; }
};
struct AXI_LLC {
  static uint32_t valid_row_bytes(const AXI_LLCConfig &c) { return (c.ways + 7) / 8; }
};
struct AXI_LLC_TableReq_t {
  bool enable = false, write = false;
  uint32_t index = 0, way = 0;
  std::vector<uint8_t> payload, byte_enable;
};
struct AXI_LLC_TableOut_t {
  AXI_LLC_TableReq_t data, meta, valid, repl;
  bool invalidate_all = false;
};
struct AXI_LLC_Bytes { std::vector<uint8_t> bytes; };
struct AXI_LLC_LookupIn_t {
  bool data_valid = false, meta_valid = false, valid_valid = false, repl_valid = false;
  AXI_LLC_Bytes data, meta, valid, repl;
};
struct AXI_LLCPerfCounters_t {
  uint64_t read_access = 0, read_hit = 0, read_miss = 0;
  uint64_t read_access_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_hit_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_miss_by_master[NUM_READ_MASTERS] = {};
  uint64_t bypass_read = 0, write_passthrough = 0, refill = 0, mshr_merge = 0;
  uint64_t prefetch_issue = 0, prefetch_hit = 0, prefetch_drop_inflight = 0;
  uint64_t prefetch_drop_mshr_full = 0, prefetch_drop_queue_full = 0, prefetch_drop_table_hit = 0;
  uint64_t ddr_read_total_cycles = 0, ddr_read_samples = 0;
  uint64_t ddr_write_total_cycles = 0, ddr_write_samples = 0;
};

// Schedule knobs, set by the harness for each generated case.
struct VpSchedule {
  uint64_t seed = 1;
  uint32_t ready_pct = 100;      // chance per tick that a port is ready
  uint32_t lat_min = 1, lat_max = 4; // response latency in ticks
  uint32_t tail_pct = 0;         // chance of an extra long latency
  uint32_t tail_max = 0;
  bool reorder = false;          // read responses of one master may overtake
  uint32_t max_outstanding = 8;
};
extern VpSchedule vp_schedule;

class AXI_Interconnect {
public:
  ReadMasterPort_t read_ports[NUM_READ_MASTERS];
  WriteMasterPort_t write_ports[NUM_WRITE_MASTERS];
  sim_ddr::SimDDR_IO_t axi_io{}, axi_ddr_io{}, axi_mmio_io{};
  bool req_ready_r[NUM_READ_MASTERS] = {};
  bool req_drop_warned[NUM_READ_MASTERS] = {};
  ReadReqHoldLatch read_req_hold[NUM_READ_MASTERS] = {};
  bool w_req_ready_r[NUM_WRITE_MASTERS] = {};
  bool read_req_accepted[NUM_READ_MASTERS] = {};
  uint8_t read_req_accepted_id[NUM_READ_MASTERS] = {};
  bool write_req_accepted[NUM_WRITE_MASTERS] = {};
  uint64_t vp_reads = 0, vp_writes = 0, vp_master_reads[NUM_READ_MASTERS] = {};
  std::vector<uint32_t> vp_read_addr;

  void init();
  void comb_outputs();
  void comb_inputs();
  void seq();
  void set_llc_config(const AXI_LLCConfig &) {}
  void set_llc_lookup_in(const AXI_LLC_LookupIn_t &) {}
  const AXI_LLC_TableOut_t &get_llc_table_out() const { return table_out_; }
  const AXI_LLCPerfCounters_t &get_llc_perf_counters() const { return perf_; }

private:
  struct Rd {
    uint32_t addr; uint8_t total_size, id;
    uint32_t lat; uint32_t sample_at; bool sampled;
    WideData<MAX_READ_TRANSACTION_WORDS> data;
  };
  struct Wr { uint8_t id; uint32_t lat; };
  std::deque<Rd> rq_[NUM_READ_MASTERS];
  std::deque<Wr> wq_[NUM_WRITE_MASTERS];
  int head_[NUM_READ_MASTERS] = {-1, -1, -1};
  bool fresh_[NUM_READ_MASTERS] = {};
  bool wfresh_[NUM_WRITE_MASTERS] = {};
  uint64_t rng_ = 1;
  AXI_LLC_TableOut_t table_out_{};
  AXI_LLCPerfCounters_t perf_{};
  uint32_t rnd();
  uint32_t latency();
  void sample(Rd &r);
};
} // namespace axi_interconnect
