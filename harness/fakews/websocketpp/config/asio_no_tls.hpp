#pragma once
#include "websocketpp/fake.hpp"
