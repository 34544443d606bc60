"""Reference values of CSS units, independent of svgio's own constants."""
import math

PX = {"": 1.0, "px": 1.0, "pt": 4.0 / 3.0, "pc": 16.0}
INCH = {"in": 1.0, "cm": 1 / 2.54, "mm": 1 / 25.4}
# precision of the constants the library documents (1pt = 1.3333px, 1mm = 0.0393701in)
REL = {"": 1e-12, "px": 1e-12, "pc": 1e-12, "pt": 3e-5, "in": 1e-12, "cm": 1e-6, "mm": 1e-6}
ANGLE = {"deg": math.pi / 180, "": math.pi / 180, "grad": math.pi / 200, "rad": 1.0, "turn": 2 * math.pi, "%": 2 * math.pi / 100}


def pixels(amount, unit, ctx, axis=None):
    """(value, tolerance) in px, or None when the context does not determine it. ctx keys: ppi, relative_length, width, height, font_size, font_height, vw, vh."""
    if unit in PX:
        v = amount * PX[unit]
        return v, abs(v) * REL[unit]
    if unit in INCH:
        if ctx.get("ppi") is None:
            return None
        v = amount * INCH[unit] * ctx["ppi"]
        return v, abs(v) * REL[unit]
    if unit == "%":
        ref = ctx.get({"x": "width", "y": "height"}.get(axis, "relative_length"))
        if ref is None:
            ref = ctx.get("relative_length")
        k = 0.01
    elif unit == "em":
        ref, k = ctx.get("font_size"), 1.0
    elif unit == "ex":
        ref, k = ctx.get("font_height"), 1.0
    else:
        if ctx.get("vw") is None:
            return None
        w, h = ctx["vw"], ctx["vh"]
        ref, k = {"vw": w, "vh": h, "vmin": min(w, h), "vmax": max(w, h)}[unit], 0.01
    if ref is None:
        return None
    v = amount * ref * k
    return v, abs(v) * 1e-12
