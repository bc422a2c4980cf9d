"""Writes known-findings.json."""
import json
import os

fixed = [
    ("C14", "4e48cc1", "a number of exactly 64 characters overflowed the stack buffer without fast_float"),
    ("C14", "1bdd77f", "empty fields and fields starting with a space were accepted as floating point numbers without fast_float"),
    ("C22", "e03f1a5", "reading the end of a file threw bad_alloc if errno was ENOMEM from something else"),
    ("C09", "9852c1d", "position() moved backwards on reads at the end of a file"),
    ("C27", "187932c", "out of bounds read of the portable line reader on lines containing NUL"),
    ("C12", "ad8f5b6", "eof() stayed false after ignoring the last row"),
    ("C23", "8c09cb2", "line buffers leaked by move assignment"),
    ("C06", "db0e714", "header was returned as a row when empty lines ahead of it were ignored"),
    ("C02", "6fa24b7", "escapes after skipped spacing or a closing quote candidate corrupted the value"),
    ("C20", "b8ee155", "substitute conversions were applied to rows which could not be read"),
    ("C22", "349c53a", "reads at the end of the data reported and converted the row before"),
    ("C31", "0c50022", "exceptions named the wrong line when empty lines were ignored"),
    ("C24", "b8f2842", "the error of an earlier line was reported for an empty line"),
    ("C06", "3e2520a", "an empty line was an error even if a single column was expected"),
    ("C18", "98975e8", "values of a partially converted row were returned together with the error"),
    ("C08", "499e40a", "a duplicate header field was only an error in the first call with exceptions"),
    ("C15", "23f8e90", "out of bounds read when converting an empty field to a character"),
    ("C30", "b636d17", "multiline stayed enabled for the header if it was defined within ss::setup"),
    ("C15", "3c3dce4", "uint8_t and int8_t were read as numbers instead of single characters"),
    ("C12", "9b87ffc", "ignore_next() dropped only the first line of a row which spans several lines"),
    ("C26", "59c909d", "plus signs and hexadecimal numbers were accepted as floating points without fast_float"),
    ("C16", "143a99a", "optionals and variants which contain variants could not be compiled"),
    ("C32", "5eb5361", "rows were read twice or the parser crashed after an exception left the conversion of a row"),
    ("C34", "ef21afc", "floating point texts were read with the decimal point of the locale without fast_float"),
    ("C22", "e41c15b", "line() increased by ignoring rows at the end of the data"),
    ("C35", "d5dc4f8", "long lines were read in quadratic time by the portable get_line_file"),
    ("C29", "e86e5f7", "running out of memory while the header was split left a part of its fields, so that names were not found later on"),
    ("C29", "76bf0aa", "running out of memory while fields were selected left them selected for every other row only"),
]
known = [
]
out = [dict(property=p, status="fixed", commit=c, what=w, entry="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in fixed]
out += [dict(property=p, status="known", key=k, what=w) for p, k, w in known]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
