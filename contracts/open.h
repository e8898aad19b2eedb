// Opens private members to specifications (representation invariants and abstraction functions only; no contract calls a private function).
#ifndef OPEN_H_
#define OPEN_H_
#include <algorithm>
#include <array>
#include <bit>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <iostream>
#include <limits>
#include <memory>
#include <new>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#define private public
#endif
