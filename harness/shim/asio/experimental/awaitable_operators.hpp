#pragma once
#include <asio.hpp>
#include <boost/asio/experimental/awaitable_operators.hpp>
