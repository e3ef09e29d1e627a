"""Independent tokeniser of g-code lines into the records of spec/Machine.tla.

It is cross-checked against spec/Lex.tla, character by character, by the check of C02."""
import re
from decimal import Decimal, ROUND_HALF_EVEN

NA = 1000000000
LIMIT = 900000000
_comment = re.compile(r"\([^()]*\)|;.*")
_word = re.compile(r"([A-Za-z])([-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)?)")
AXES = "xyzefij"


def scaled(text, digits=5):
    """decimal text -> integer number of 10^-digits, None when there is no number"""
    if not text.strip("+-."):
        return None
    v = int((Decimal(text) * (10 ** digits)).to_integral_value(ROUND_HALF_EVEN))
    if abs(v) > LIMIT:
        v = LIMIT if v > 0 else -LIMIT
    return v


def fscaled(value, digits=5):
    """float of the implementation -> integer, NA for None, -NA for what isn't a usable number"""
    if value is None:
        return NA
    try:
        v = round(float(value) * 10 ** digits)
    except (TypeError, ValueError, OverflowError):
        return -NA
    return v if abs(v) <= LIMIT else -NA


def split_words(raw):
    """-> (words, comments); a word is (upper case letter, number text)"""
    raw = raw.strip()
    if raw.startswith("(") and raw.endswith(")") and not re.match(r"\([^()]*\)", raw):
        return [], [raw]       # a whole line in parentheses, with some more inside
    comments = _comment.findall(raw)
    text = _comment.sub(" ", raw)
    text = text.split("*")[0]
    words = [(a.upper(), b) for a, b in _word.findall(text)]
    if words and words[0][0] == "N":
        words = words[1:]
    return words, comments


def token(raw):
    words, comments = split_words(raw)
    rec = {"c": "", "t": -1, "hx": False, "hy": False, "hz": False}
    for a in AXES:
        rec[a] = NA
    if not words:
        return rec
    letter, number = words[0]
    if letter not in "GMT" or not number.isdigit():
        rec["c"] = "?"         # text, or a line which starts by something else than a command: nothing is required
        return rec
    rec["c"] = letter + number
    if letter == "T":
        rec["t"] = int(number)
    if letter == "G":
        for a, b in words[1:]:
            a = a.lower()
            if a in AXES:
                v = scaled(b, 3 if a == "f" else 5)
                if v is not None:
                    rec[a] = v
                if a in "xyz":
                    rec["h" + a] = True
    return rec


def other_words(raw):
    """words after the command which have no attribute, normalised, as one string"""
    words, comments = split_words(raw)
    letter = words[0][0] if words else ""
    out = []
    for a, b in words[1:]:
        if letter == "G" and a.lower() in AXES:
            continue
        out.append(a + (str(Decimal(b).normalize()) if b.strip("+-.") else ""))
    return " ".join(out)


def comment_text(raw):
    return " | ".join(c.strip() for c in split_words(raw)[1])
