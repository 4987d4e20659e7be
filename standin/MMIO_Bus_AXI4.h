#pragma once
#include "SimDDR.h"
#include "UART16550_Device.h"
namespace mmio {
struct MMIO_Bus_AXI4 {
  sim_ddr::SimDDR_IO_t io{};
  void init() {}
  template <class D> void add_device(uint32_t, uint32_t, D *) {}
  void comb_outputs() {}
  void comb_inputs() {}
  void seq() {}
};
} // namespace mmio
