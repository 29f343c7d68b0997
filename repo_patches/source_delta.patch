From c417476c198962c8dd0472555f86e39d8ffe5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 01/10] fix: percapconv_year=False uses grandfathering all the
 time

The rule compared the Pyomo Param object itself with False, so a switched-off
convergence year was treated as the year 0.
---
 mimosa/components/effortsharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..4a30447 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,7 +259,7 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
-- 
2.43.0


From 2e3964aeef766b0b3903fc2d90823f608a16b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 02/10] fix: reject NaN for numeric parameters with bounds

---
 mimosa/common/config/utils/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..d3889d8 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -173,7 +173,8 @@ class NumParser(GeneralParser):
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
         # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        # (written such that NaN is never within bounds)
+        if not self.min <= parsed_value <= self.max:
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
-- 
2.43.0


From 32137aac91d44bb168194bb8eb7065e78fe72a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 03/10] fix: substitute every parameter reference of a string,
 also to non-string values

Only the last reference of a string was kept, and a reference to a number
raised a TypeError.
---
 mimosa/common/config/parseconfig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..713678f 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -123,8 +123,8 @@ def parse_param_values(params):
         for match in re.findall(r"\{([\w -]+)\}", node):
             try:
                 other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
+                node = node.replace(f"{{{match}}}", str(other_value))
+                set_nested(params, keys, node)
             except KeyError:
                 pass
 
-- 
2.43.0


From 7752f3edc47233b652225f0ddfb31de9af2ea8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 04/10] fix: model with the global cost pool can be built

The module redeclared area_under_MAC and added a second constraint named
mitigation_costs, both already defined by the mitigation component.
---
 .../emissiontrade/globalcostpool.py           | 24 ++-----------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..0de0aa6 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,12 +13,9 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
@@ -37,22 +34,10 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
-    # The global mitigation cost pool:
+    # The global mitigation cost pool (the area under the MAC and the cost balance
+    # `mitigation_costs - area_under_MAC` are already defined in the mitigation module):
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
@@ -95,11 +80,6 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
                 ),
                 "import_export_emission_reduction_balance",
             ),
-            RegionalConstraint(
-                lambda m, t, r: m.import_export_mitigation_cost_balance[t, r]
-                == m.mitigation_costs[t, r] - m.area_under_MAC[t, r],
-                "import_export_mitigation_cost_balance",
-            ),
         ]
     )
 
-- 
2.43.0


From bd9f2a7cc358271090238fa87d29cb47247d4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 05/10] fix: reject keys which only look like a nested
 parameter path

---
 mimosa/common/config/parseconfig.py       | 8 +++++---
 mimosa/common/config/utils/nested_dict.py | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 713678f..b459008 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -66,15 +66,17 @@ def check_obsolete_params(user_yaml, parsed_params, parser_tree):
 
     leaf_criterium = create_leaf_criterium(parser_tree)
 
-    keys_user = set(flatten(user_yaml, leaf_criterium=leaf_criterium))
-    keys_parsed = set(flatten(parsed_params, leaf_criterium=leaf_criterium))
+    # Compare the key paths as tuples: a key which itself looks like a joined
+    # path (e.g. "emissions - carbonbudget") is not the same as the nested key
+    keys_user = set(flatten(user_yaml, leaf_criterium, join_keys=tuple))
+    keys_parsed = set(flatten(parsed_params, leaf_criterium, join_keys=tuple))
 
     # Check keys which are in user config, but not in parsed file
     # These are obsolete/unused/misspelled parameters
     num_obsolete = 0
     for key in set(keys_user) - set(keys_parsed):
         num_obsolete += 1
-        print(f"Obsolete key: {key}")
+        print(f"Obsolete key: {' - '.join(map(str, key))}")
     if num_obsolete > 0:
         raise RuntimeWarning("Some config parameters are obsolete.")
 
diff --git a/mimosa/common/config/utils/nested_dict.py b/mimosa/common/config/utils/nested_dict.py
index 2dcd1d9..2a89f94 100644
--- a/mimosa/common/config/utils/nested_dict.py
+++ b/mimosa/common/config/utils/nested_dict.py
@@ -11,7 +11,7 @@ def set_nested(dictionary, keys, value):
     dictionary[keys[-1]] = value
 
 
-def flatten(joined_dict, leaf_criterium=None):
+def flatten(joined_dict, leaf_criterium=None, join_keys=" - ".join):
 
     flattened_dict = {}
 
@@ -24,7 +24,7 @@ def flatten(joined_dict, leaf_criterium=None):
         for key, node in subset.items():
             keys = list(curr_keys) + [key]
             if leaf_criterium(keys, node):
-                flattened_dict[" - ".join(keys)] = node
+                flattened_dict[join_keys(keys)] = node
             else:
                 _recursive_traverse(keys, node)
 
-- 
2.43.0


From 5859f3d2fd970da65b15cea02fffccb57cf6c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 06/10] fix: do not modify the caller's parameter dictionary

---
 mimosa/common/config/parseconfig.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index b459008..f600146 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -3,6 +3,7 @@ Parses the config.yaml file and checks for consistency with the default config t
 """
 
 import re
+from copy import deepcopy
 
 from mimosa.common.utils import load_yaml
 from mimosa.common import quant
@@ -86,6 +87,10 @@ def load_default_yaml():
 
 
 def check_params(input_params, return_parser_tree=False):
+    # Never share nested dictionaries with the caller: the parsed parameters
+    # are modified afterwards (see `parse_param_values`)
+    input_params = deepcopy(input_params)
+
     default_yaml = load_default_yaml()
 
     parsed_params, params_parser_tree = parse_params(
-- 
2.43.0


From 9ed0ec2ded40d0e4312844fd790214f3e8c78bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 07/10] fix: label the carbon price in currency per emission,
 not per emission and year

---
 mimosa/components/mitigation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/mitigation.py b/mimosa/components/mitigation.py
index f2c4da7..abd49d4 100644
--- a/mimosa/components/mitigation.py
+++ b/mimosa/components/mitigation.py
@@ -197,7 +197,7 @@ def _get_mac_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
         m.t,
         m.regions,
         bounds=lambda m: (0, 2 * m.MAC_gamma),
-        units=quant.unit("currency_unit/emissions_unit"),
+        units=quant.unit("currency_unit/emissionsrate_unit"),
     )
     constraints.extend(
         [
-- 
2.43.0


From 9a5a50fec8122b070b92071a0e17bd4dabe2f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 08/10] fix: label the capital stock as a stock of money, not
 money per year

---
 mimosa/components/cobbdouglas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/components/cobbdouglas.py b/mimosa/components/cobbdouglas.py
index 2f86d4d..7023771 100644
--- a/mimosa/components/cobbdouglas.py
+++ b/mimosa/components/cobbdouglas.py
@@ -87,14 +87,14 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
 
     m.init_capitalstock_factor = Param(
         m.regions,
-        units=quant.unit("dimensionless"),
+        units=quant.unit("yr"),
         doc="regional::economics.init_capital_factor",
     )
     m.capital_stock = Var(
         m.t,
         m.regions,
         initialize=lambda m, t, r: m.init_capitalstock_factor[r] * m.baseline_GDP[t, r],
-        units=quant.unit("currency_unit"),
+        units=quant.unit("currency_unit * yr"),
     )
 
     # Parameters
-- 
2.43.0


From 2f6add1e5aebf1d5d65ec9d5d2926908dd952b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:58 +0000
Subject: [PATCH 09/10] fix: documented per-capita convergence example used a
 misspelled option name

---
 mimosa/components/effortsharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index 4a30447..6a22bcc 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -167,7 +167,7 @@ def _get_percapconv_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]
     params["effort sharing"]["percapconv_year"] = 2050
 
     # Per-capita convergence needs emission trading to avoid infeasibility
-    params["model"]["emissiontrade_module"] = "emissiontrade"
+    params["model"]["emissiontrade module"] = "emissiontrade"
     model = MIMOSA(params)
     ```
 
-- 
2.43.0


From 5f335daa5278cc4bbee073477dd755c29202736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:08 +0000
Subject: [PATCH 10/10] fix: the welfare page shows the inequality aversion
 parameter

The documentation hooks expand param:: from the default model, which does not
build the general inequality aversion module: its parameter stayed unexpanded.
---
 mimosa/components/welfare/inequal_aversion_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/welfare/inequal_aversion_general.py b/mimosa/components/welfare/inequal_aversion_general.py
index c20a880..c7f0ab9 100644
--- a/mimosa/components/welfare/inequal_aversion_general.py
+++ b/mimosa/components/welfare/inequal_aversion_general.py
@@ -24,7 +24,7 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
 
     <h3>Parameters defined in this module</h3>
     - param::elasmu
-    - param::inequal_aversion
+    - manualparam::inequal_aversion::economics.inequal_aversion
 
     """
     constraints = []
-- 
2.43.0

