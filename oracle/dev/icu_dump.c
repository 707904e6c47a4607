/* Development-time only: dumps ICU's Unicode 15.1 data, one line per code
 * point, so that oracle/build_oracle.py can cross-check the snapshot it builds
 * from the vendored UCD files against a second, independent source.
 *   cc -O1 icu_dump.c -licuuc -o icu_dump && ./icu_dump > icu.tsv      */
#include <stdio.h>
#include <string.h>
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <unicode/unorm2.h>
#include <unicode/ustring.h>
#include <unicode/uversion.h>

static void pv(UProperty p, UChar32 c) {
  int v = u_getIntPropertyValue(c, p);
  const char *n = u_getPropertyValueName(p, v, U_SHORT_PROPERTY_NAME);
  const char *l = u_getPropertyValueName(p, v, U_LONG_PROPERTY_NAME);
  printf("\t%s|%s", n ? n : "", l ? l : "");
}
static void raw(const UNormalizer2 *n, UChar32 c, int full) {
  UChar buf[64]; UErrorCode e = U_ZERO_ERROR;
  int len = full ? unorm2_getDecomposition(n, c, buf, 64, &e)
                 : unorm2_getRawDecomposition(n, c, buf, 64, &e);
  putchar('\t');
  if (len < 0) return;
  for (int i = 0; i < len;) { UChar32 x; U16_NEXT(buf, i, len, x); printf("%04X ", x); }
}
int main(void) {
  UVersionInfo v; char vs[32]; u_getUnicodeVersion(v); u_versionToString(v, vs);
  fprintf(stderr, "ICU unicode %s\n", vs);
  UErrorCode e = U_ZERO_ERROR;
  const UNormalizer2 *nfc = unorm2_getNFCInstance(&e), *nfkc = unorm2_getNFKCInstance(&e);
  UProperty ints[] = {UCHAR_GENERAL_CATEGORY, UCHAR_CANONICAL_COMBINING_CLASS, UCHAR_DECOMPOSITION_TYPE,
    UCHAR_GRAPHEME_CLUSTER_BREAK, UCHAR_WORD_BREAK, UCHAR_HANGUL_SYLLABLE_TYPE,
    UCHAR_INDIC_SYLLABIC_CATEGORY, UCHAR_BIDI_CLASS, UCHAR_BLOCK, UCHAR_SCRIPT};
  const char *intn[] = {"gc","ccc","dt","GCB","WB","hst","InSC","bc","blk","sc"};
  printf("cp");
  for (unsigned i = 0; i < sizeof ints / sizeof *ints; i++) printf("\t%s", intn[i]);
  printf("\tage\tna\tdm_can\tdm_compat\tfull_can\tfull_compat");
  for (int p = UCHAR_BINARY_START; p < UCHAR_BINARY_LIMIT; p++)
    printf("\t%s", u_getPropertyName(p, U_LONG_PROPERTY_NAME));
  putchar('\n');
  for (UChar32 c = 0; c <= 0x10FFFF; c++) {
    printf("%04X", c);
    for (unsigned i = 0; i < sizeof ints / sizeof *ints; i++) pv(ints[i], c);
    UVersionInfo a; u_charAge(c, a); printf("\t%d.%d", a[0], a[1]);
    char nm[256]; e = U_ZERO_ERROR; u_charName(c, U_UNICODE_CHAR_NAME, nm, 256, &e);
    printf("\t%s", nm);
    raw(nfc, c, 0); raw(nfkc, c, 0); raw(nfc, c, 1); raw(nfkc, c, 1);
    for (int p = UCHAR_BINARY_START; p < UCHAR_BINARY_LIMIT; p++)
      printf("\t%d", u_hasBinaryProperty(c, p));
    putchar('\n');
  }
  return 0;
}
