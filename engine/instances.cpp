// Instantiates every public member of the library's class templates for ordinary element types, so that the analyses see their code.
#include "library.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
using namespace Java::Lang;
using namespace Java::Util;
#ifndef SKIP_1
template class Java::Util::ArrayList<String>;
#endif
#ifndef SKIP_2
template class Java::Util::ArrayList<Integer>;
#endif
#ifndef SKIP_3
template class Java::Util::LinkedList<String>;
#endif
#ifndef SKIP_4
template class Java::Util::LinkedList<Integer>;
#endif
#ifndef SKIP_5
template class Java::Util::Vector<String>;
#endif
#ifndef SKIP_6
template class Java::Util::Vector<Integer>;
#endif
#ifndef SKIP_7
template class Java::Util::Stack<String>;
#endif
#ifndef SKIP_8
template class Java::Util::PriorityQueue<Integer>;
#endif
#ifndef SKIP_9
template class Java::Util::PriorityQueue<String>;
#endif
#ifndef SKIP_10
template class Java::Util::HashMap<String, String>;
#endif
#ifndef SKIP_11
template class Java::Util::HashMap<String, Integer>;
#endif
#ifndef SKIP_12
template class Java::Util::Concurrent::ConcurrentHashMap<String, String>;
#endif
#ifndef SKIP_13
template class Java::Util::Concurrent::ConcurrentHashMap<String, Integer>;
#endif
#ifndef SKIP_14
template class Java::Util::Concurrent::ConcurrentLinkedQueue<String>;
#endif
#ifndef SKIP_15
template class Array<String>;
#endif
#ifndef SKIP_16
// the members of Arrays are only compiled where they are used
int vpArraysSearch(Array<int> &ints, Array<String> &texts, int *raw, String *rawTexts, int from, int to, int key, const String &text) {
	return Arrays::binarySearch(ints, key, to) + Arrays::binarySearch(ints, from, to, key) + Arrays::binarySearch(raw, from, to, key)
		+ Arrays::binarySearchByIndex(raw, from, to, key) + Arrays::binarySearchByKey(raw, key, to)
		+ Arrays::binarySearch(texts, text, to) + Arrays::binarySearch(rawTexts, from, to, text);
}
#endif
#ifndef SKIP_17
void vpArraysSort(Array<int> &ints, Array<String> &texts, int *raw, String *rawTexts, int from, int to) {
	Arrays::sort(&ints, from, to); Arrays::sort(rawTexts, from, to);
}
#endif
#ifndef SKIP_18
void vpArraysCopy(Array<int> &ints, Array<String> &texts, Array<int> &out, Array<String> &outTexts, int from, int to, int length, const String &text) {
	out = Arrays::copyOf(ints, length); out = Arrays::copyOfRange(ints, from, to);
	outTexts = Arrays::copyOfRange(texts, from, to);
	Arrays::fill(&ints, from); Arrays::hashCode(ints); Arrays::equals(ints, out);
}
#endif
