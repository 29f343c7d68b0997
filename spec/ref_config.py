"""Independent reference of what validating a configuration means.

Interpreted by the analysis, never executed.  ``schema`` is the shipped
option template, ``user`` what the caller passes.
"""

import re

OFF = [0, False, "False", "false", "no"]
ON = [1, True, "True", "true", "yes"]


class Rejected(Exception):
    pass


def is_option(node):
    return "type" in node


def parse(node, v):
    if node.get("can_be_false", False) and v in OFF:
        return False
    kind = node["type"]
    if kind in ("str", "filepath"):
        return str(v)
    if kind == "str_or_plain_dict":
        return v if isinstance(v, dict) else str(v)
    if kind == "bool":
        if v in ON:
            return True
        if v in OFF:
            return False
        raise Rejected("not a boolean")
    if kind == "float" or kind == "int":
        x = float(v) if kind == "float" else int(v)
        if "min" in node:
            if not node["min"] <= x:
                raise Rejected("below the minimum")
        if "max" in node:
            if not x <= node["max"]:
                raise Rejected("above the maximum")
        if not x <= float("inf"):
            raise Rejected("not a number")
        return x
    if kind == "enum":
        if v in node["values"]:
            return v
        raise Rejected("not an allowed value")
    if kind == "quantity":
        if not convertible(v, node["unit"]):
            raise Rejected("no quantity of that unit")
        return v
    if kind == "list":
        if v is None:
            return []
        if not isinstance(v, list):
            raise Rejected("not a list")
        return [element(node.get("values"), x) for x in v]
    if kind == "dict" or kind == "datasource":
        if v is None and kind == "dict":
            return {}
        if not isinstance(v, dict):
            raise Rejected("not a dictionary")
        out = {}
        for k in v:
            out[element(node.get("keys"), k)] = element(node.get("values"), v[k])
        if kind == "datasource":
            for k in ("variable", "unit", "scenario", "model", "file"):
                if k not in out:
                    raise Rejected("incomplete data source")
        return out
    raise Rejected("unknown type")


def element(node, v):
    return v if node is None else parse(node, v)


def settings(schema, user, top=True):
    out = {}
    for k in schema:
        node = schema[k]
        if not isinstance(node, dict):
            raise Rejected("template")
        if is_option(node):
            out[k] = parse(node, user[k] if k in user else node.get("default", None))
        else:
            sub = user[k] if k in user else {}
            if not isinstance(sub, dict):
                raise Rejected("a group of options must be a dictionary")
            out[k] = settings(node, sub, False)
    for k in user:
        if k not in schema and not (isinstance(user[k], dict) and empty_group(user[k])):
            raise Rejected("unknown option")
    return out


def empty_group(d):
    for k in d:
        if not (isinstance(d[k], dict) and empty_group(d[k])):
            return False
    return True


def resolved(schema, user):
    whole = settings(schema, user)
    return substituted(whole, whole)


def substituted(whole, node):
    if isinstance(node, dict):
        return {k: substituted(whole, node[k]) for k in node}
    if isinstance(node, str):
        text = node
        for name in re.findall(r"\{([^{}]+)\}", node):
            found, v = lookup(whole, name.split(" - "))
            if found:
                text = text.replace("{" + name + "}", str(v))
        return text
    return node


def lookup(node, keys):
    for k in keys:
        if not isinstance(node, dict) or k not in node:
            return False, None
        node = node[k]
    return True, node
