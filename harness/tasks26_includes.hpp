#pragma once
#include "common26.hpp"
#include <pystd2026_threading.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_regex.hpp>
#include <pystd2026_argparse.hpp>
#include <pystd2026_variant.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_stablepartition.hpp>
#include <pystd2026_rotate.hpp>
