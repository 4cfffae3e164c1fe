#pragma once
namespace flecsi { namespace data { struct data_client_t { virtual ~data_client_t() {} }; } }
