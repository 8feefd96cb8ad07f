#pragma once
#include <boost/asio.hpp>
namespace asio = boost::asio;
namespace asio_handler_cont_helpers = boost_asio_handler_cont_helpers;
