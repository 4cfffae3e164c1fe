// stand-in for the FleCSI runtime: a task is a function, executed directly
#pragma once
#define flecsi_register_mpi_task(task, ns)
#define flecsi_execute_mpi_task(task, ns, ...) task(__VA_ARGS__)
