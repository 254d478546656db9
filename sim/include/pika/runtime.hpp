#pragma once
#include <functional>
#include <string>
#include <vector>
#include <pika/execution.hpp>
#include <pika/program_options.hpp>
#include <pika/runtime_fwd.hpp>
#include <pika/init.hpp>
