// P13: text pieces and attributes of a node.
#include "cmml.hpp"
extern "C" void sx_main(void) {
    CmmlToken* t = CmmlToken::newRoot();
    std::string all;
    for (int p = 0; p < 3; p++) {
        char b[3];
        int n = sx_pick("len", 3);
        for (int i = 0; i < n; i++) {
            uint8_t c = sx_u8("byte");
            b[i] = (char)c;
            if (!is_space(c)) all += (char)c;
        }
        if (sx_pick("string", 2)) t->appendTextContent(std::string(b, n)); else t->appendTextContent(b, n);
    }
    sx_assert(same_bytes(t->getTextContent(), all), "the text is the concatenation of the pieces without white space");
    if (all.size() == 6) sx_reach("no white space"); else if (all.size() == 3) sx_reach("some white space");
    std::string k1(1, (char)sx_u8("key1")), k2(1, (char)sx_u8("key2")), v1(1, (char)sx_u8("value1")), v2(1, (char)sx_u8("value2"));
    t->addAttribute(k1, v1); t->addAttribute(k2, v2);
    sx_assert(same_bytes(t->getAttribute(k1), v1), "value of the first attribute");
    if (same_bytes(k1, k2)) { sx_assert(same_bytes(t->getAttribute(k2), v1), "first value wins"); sx_reach("same attribute twice"); }
    else sx_assert(same_bytes(t->getAttribute(k2), v2), "value of the second attribute");
    sx_assert(t->getAttribute("absent") == "", "absent attribute");
    std::string tag;
    int n = sx_pick("taglen", 5);
    for (int i = 0; i < n; i++) tag += (char)sx_u8("tag");
    t->setTag(tag);
    bool pre = n >= 2 && tag[0] == 'm' && tag[1] == ':';
    sx_assert(same_bytes(t->getTag(), pre ? tag.substr(2) : tag), "tag");
    sx_assert(same_bytes(t->getMeaning(), t->getTag() + "#" + all), "meaning");
}
