#pragma once
#include <bencode/bencode.hpp>
