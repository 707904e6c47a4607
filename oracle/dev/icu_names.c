/* Development-time only: dumps ICU's property value aliases (prop short long). */
#include <stdio.h>
#include <unicode/uchar.h>
int main(void) {
  UProperty ps[] = {UCHAR_GENERAL_CATEGORY, UCHAR_CANONICAL_COMBINING_CLASS, UCHAR_DECOMPOSITION_TYPE,
    UCHAR_GRAPHEME_CLUSTER_BREAK, UCHAR_WORD_BREAK, UCHAR_HANGUL_SYLLABLE_TYPE,
    UCHAR_INDIC_SYLLABIC_CATEGORY, UCHAR_BIDI_CLASS, UCHAR_BLOCK, UCHAR_SCRIPT};
  const char *n[] = {"gc","ccc","dt","GCB","WB","hst","InSC","bc","blk","sc"};
  for (int i = 0; i < 10; i++)
    for (int v = u_getIntPropertyMinValue(ps[i]); v <= u_getIntPropertyMaxValue(ps[i]); v++) {
      const char *s = u_getPropertyValueName(ps[i], v, U_SHORT_PROPERTY_NAME), *l = u_getPropertyValueName(ps[i], v, U_LONG_PROPERTY_NAME);
      if (s || l) printf("%s\t%d\t%s\t%s\n", n[i], v, s ? s : "", l ? l : "");
    }
}
