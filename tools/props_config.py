from props_model import P

CF = "mimosa/common/config/"
ANY = "every option of the shipped template and every value a user may give it"
WHY = ("The unit tests feed a handful of values to the individual parsers; which values pass or fail, and what else changes, must "
       "hold for every option and every value, also in combination with the rest of the configuration.")


def Q(id, title, statement, text, files, mech, why=WHY):
    return P(id, title, statement, text, why, files, mech, over=["configurations", "inputs"],
             observe=["settings stored on the model object", "exception on construction"])


PROPS = [
    Q("C01", "Numeric options keep exactly the values within their documented bounds",
      "A numeric option given a value that reads as a number within the documented minimum and maximum is stored as that number of "
      "the documented kind; anything else, including not-a-number and containers, is rejected when the model is created. Options that may be "
      "switched off store False for the documented off-values before any bound applies, and no other setting is affected.",
      ANY, [CF + "utils/parsers.py"], [("numeric parsers", CF + "utils/parsers.py:NumParser.parse")]),
    Q("C02", "Every other option accepts exactly its documented values",
      "Booleans accept the documented true and false spellings, enumerations exactly their listed values, quantities exactly what can be "
      "converted to the documented unit, texts any value as text, and lists, dictionaries and data sources are checked element by "
      "element with all required entries present. An accepted value is stored unchanged up to that documented normalisation, "
      "anything else is rejected, and no other setting is affected.",
      ANY, [CF + "utils/parsers.py"], [("option parsers", CF + "utils/parsers.py")]),
    Q("C03", "A setting given by the user wins, every other setting is the default",
      "For any set of options the user gives, each given option has the given value and every option not given has the documented default, "
      "independent of which others are given, and the stored settings contain every documented option and nothing else. "
      "A group of options given as something other than a dictionary is rejected; settings read from a file are those the file contains.",
      "every subset of options (all single, all-but-one, pairs of neighbours and all) and every group given wrongly",
      [CF + "parseconfig.py", CF + "utils/parsers.py", CF + "utils/nested_dict.py"],
      [("merging with defaults", CF + "parseconfig.py:parse_params"), ("lookup", CF + "utils/parsers.py:GeneralParser.get")]),
    Q("C04", "Unknown, misspelled or misplaced options are rejected",
      "A configuration that contains, at any nesting level, an option which the documented template does not have at that place is rejected when "
      "the model is created, whatever its value and whatever else is set. Configurations made only of documented options at their places are "
      "not rejected for this reason.",
      "every group of the template, with fresh, misspelled, misplaced and joined names", [CF + "parseconfig.py", CF + "utils/nested_dict.py"],
      [("unknown options", CF + "parseconfig.py:check_obsolete_params"), ("flattening", CF + "utils/nested_dict.py:flatten")]),
    Q("C05", "References to other options are replaced by their values",
      "Every occurrence of a braced option path in a text setting, at any depth and in defaults as well as in user values, is replaced by "
      "the text of that option's stored value, for every scalar option. Text that names no option stays as it is, and nothing else changes.",
      "every text-valued place, every scalar option as target, several and repeated references per text", [CF + "parseconfig.py"],
      [("references", CF + "parseconfig.py:parse_param_values")]),
    Q("C06", "Creating a model neither changes nor keeps the caller's settings",
      "The dictionary a caller passes is left exactly as it was, accepted or not, and shares no mutable part with the model. "
      "The settings of a model depend only on what was passed to it: earlier models, rejected configurations, loaded configurations and later "
      "changes to any of their dictionaries have no influence.",
      "histories of loading, changing, rejecting and creating over every option", [CF + "parseconfig.py", "mimosa/mimosa.py"],
      [("parameter check", CF + "parseconfig.py:check_params"), ("constructor", "mimosa/mimosa.py:MIMOSA.__init__")],
      "Tests create at most one model per configuration and never look at the dictionary they passed afterwards."),
]
_T = ("abstract interpretation of the constructor under trace partitioning, settings compared per partition with an independent "
      "reference driven by the option template")
TECH = {p["id"]: _T for p in PROPS}
TECH["C06"] = "abstract interpretation with object identity: ownership/alias and effect analysis over constructor histories"
_N = ("Decides every option of the template with an unconstrained value (all type/order/equality partitions); text content is opaque and whether "
      "pint can convert a given text is an unconstrained boolean.")
NOTES = {p["id"]: _N for p in PROPS}
NOTES["C04"] = "Finite family of unknown names per group (fresh, case, prefix, separator, misplaced, joined); values unconstrained for fresh names."
NOTES["C05"] = "Concrete texts with references, unconstrained target values; chained references (a target containing references) are not claimed."
NOTES["C06"] = "Bounded histories (up to three constructions) over every option; model building itself is opaque here."
