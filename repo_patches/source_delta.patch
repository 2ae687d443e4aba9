From 276bcea8868966ebdf19c3f813c40ea19f90fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:29 +0000
Subject: [PATCH 01/17] fix: joint ramping constraints of bidirectional units
 use the net energy position

The energy side without a regulation bid was left out of the constraint.
---
 .../spot_market_backend/fcas_constraints.py   | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..d40fabc 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -16,10 +16,7 @@ def joint_ramping_constraints_raise_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = 1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
-    variable_mapping_energy['service'] = 'energy'
-    variable_mapping_energy['coefficient'] = 1.0
-    variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
+    variable_mapping = pd.concat([variable_mapping_reg, net_energy_mapping(rhs_and_type)])
     return rhs_and_type, variable_mapping
 
 
@@ -36,13 +33,26 @@ def joint_ramping_constraints_lower_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = -1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
-    variable_mapping_energy['service'] = 'energy'
-    variable_mapping_energy['coefficient'] = 1.0
-    variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
+    variable_mapping = pd.concat([variable_mapping_reg, net_energy_mapping(rhs_and_type)])
     return rhs_and_type, variable_mapping
 
 
+def net_energy_mapping(rhs_and_type):
+    """Maps the energy variables of both sides of bidirectional units to the units' constraints.
+
+    Both sides are needed even if regulation is only offered on one of them, because the constraints are on the net
+    energy position of the unit.
+    """
+    generator_side = rhs_and_type.loc[:, ['constraint_id', 'unit']]
+    generator_side['service'] = 'energy'
+    generator_side['dispatch_type'] = 'generator'
+    generator_side['coefficient'] = 1.0
+    load_side = generator_side.copy()
+    load_side['dispatch_type'] = 'load'
+    return pd.concat([generator_side, load_side])
+
+
+
 def joint_ramping_constraints_raise_reg(unit_limits, dispatch_interval, next_constraint_id):
 
     constraint_settings = {'generator': {'type': '<=',
-- 
2.43.0


From 028dcc2e1cfff7d77d6fd8c1c9cae5fda59064f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:39 +0000
Subject: [PATCH 02/17] fix: lower regulation on the load side of bidirectional
 units uses up lower slope capacity

It entered the joint capacity constraint with the sign that relaxes it.
---
 src/nempy/spot_market_backend/fcas_constraints.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index d40fabc..17a3d9e 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -52,7 +52,6 @@ def net_energy_mapping(rhs_and_type):
     return pd.concat([generator_side, load_side])
 
 
-
 def joint_ramping_constraints_raise_reg(unit_limits, dispatch_interval, next_constraint_id):
 
     constraint_settings = {'generator': {'type': '<=',
@@ -308,7 +307,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
+    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = -1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From 8fb343bcc3807c9ac8974bd29a1be6506d27c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:02 +0000
Subject: [PATCH 03/17] fix: ramp rate constraints can be set when no unit
 needs a non bidirectional constraint

Raised ValueError when all units were bidirectional or exempt fast start units.
---
 src/nempy/markets.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..dfcd8b4 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -846,17 +846,19 @@ class SpotMarket:
             ramp_details, run_type, fast_start_profiles, self.dispatch_interval
         )
 
-        rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        # All the units can be bidirectional, or exempt because of their fast start mode.
+        if not ramp_details.empty:
+            rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
+                                                                  self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
-        rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
+                                                                  self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not bidirectional_unit_ramp_details.empty:
 
@@ -873,8 +875,9 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('ramp_up', violation_cost)
-            self.make_constraints_elastic('ramp_down', violation_cost)
+            if not ramp_details.empty:
+                self.make_constraints_elastic('ramp_up', violation_cost)
+                self.make_constraints_elastic('ramp_down', violation_cost)
 
             if 'bidirectional_ramp_up' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('bidirectional_ramp_up', violation_cost)
-- 
2.43.0


From 3e0915de7e1e06efc70a323b8710f1c82d04d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:02 +0000
Subject: [PATCH 04/17] fix: elastic joint ramping constraints do not need
 units offering both regulation services

Raised ModelBuildError when there was no raise_reg or no lower_reg constraint to make elastic.
---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index dfcd8b4..2dff059 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1596,8 +1596,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
+            if 'joint_ramping_raise_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
+            if 'joint_ramping_lower_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
             if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
             if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-- 
2.43.0


From faefb7ca318944cfa4ed31f016def86dd822e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 05/17] fix: tie break constraints cover every pair of equally
 priced bids once

Pair names built from sorted unit and band labels collided between different
pairs, bidirectional units were paired once per unit table row, and a market
without ties could not set the constraints.
---
 src/nempy/markets.py                           | 11 ++++++-----
 .../spot_market_backend/unit_constraints.py    | 18 +++++-------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 2dff059..d4e78bc 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2847,15 +2847,16 @@ class SpotMarket:
 
         price_bids = self._objective_function_components['bids']
         bid_decision_variables = self._decision_variables['bids']
-        unit_regions = self._unit_info.loc[:, ['unit', 'region']]
+        unit_regions = self._unit_info.loc[:, ['unit', 'dispatch_type', 'region']]
 
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
 
-        self._lhs_coefficients['tie_break'] = lhs
-        self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
-        self.make_constraints_elastic('tie_break', violation_cost=cost)
+        if not rhs.empty:
+            self._lhs_coefficients['tie_break'] = lhs
+            self._constraints_rhs_and_type['tie_break'] = rhs
+            self._next_constraint_id = rhs['constraint_id'].max() + 1
+            self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
                  allow_over_constrained_dispatch_re_run=False):
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..1f152eb 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -561,21 +561,13 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     energy_price_bids = pd.merge(energy_price_bids,
                                  bid_decision_variables.loc[:, ['variable_id', 'upper_bound']],
                                  on='variable_id')
-    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'region']], on='unit')
+    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'dispatch_type', 'region']],
+                                 on=['unit', 'dispatch_type'])
 
     constraints = pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])
-    constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
-
-    def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
-
-    constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
-
-    constraints = constraints.drop_duplicates('name')
+    # Keep each pair of bids from different units once.
+    constraints = constraints[(constraints['unit_x'] != constraints['unit_y']) &
+                              (constraints['variable_id_x'] < constraints['variable_id_y'])]
 
     constraints = constraints.loc[:, ['variable_id_x', 'upper_bound_x', 'variable_id_y', 'upper_bound_y']]
     constraints = hf.save_index(constraints, 'constraint_id', next_constraint_id)
-- 
2.43.0


From 83961a7113cf043ae5b1497474e9b6c18e766ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 06/17] fix: setting a constraint set again replaces it and its
 violation variables

Groups that were not created by the new inputs, and violation variables of the
previous inputs, stayed in the model and referred to constraints that no longer
exist.
---
 src/nempy/markets.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index d4e78bc..4bf4a3b 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -524,6 +524,7 @@ class SpotMarket:
             self._next_constraint_id,
             self._bidirectional_units
         )
+        self._remove_constraint_set('unit_bid_capacity')
         self._constraints_rhs_and_type['unit_bid_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['unit_bid_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -635,6 +636,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
+        self._remove_constraint_set('uigf_capacity')
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -846,6 +848,9 @@ class SpotMarket:
             ramp_details, run_type, fast_start_profiles, self.dispatch_interval
         )
 
+        for constraints_key in ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
+            self._remove_constraint_set(constraints_key)
+
         # All the units can be bidirectional, or exempt because of their fast start mode.
         if not ramp_details.empty:
             rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
@@ -1033,6 +1038,7 @@ class SpotMarket:
 
         rhs_and_type, variable_map = unit_constraints.create_fast_start_profile_constraints(
             fast_start_profiles, self._next_constraint_id)
+        self._remove_constraint_set('fast_start')
         if not rhs_and_type.empty:
             self._constraints_rhs_and_type['fast_start'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['fast_start'] = variable_map
@@ -1041,13 +1047,20 @@ class SpotMarket:
                 self.make_constraints_elastic('fast_start', violation_cost)
 
     def remove_fast_start_constraints(self):
-        if 'fast_start' in self._constraints_rhs_and_type:
-            del self._constraints_rhs_and_type['fast_start']
-            del self._constraint_to_variable_map['unit_level']['fast_start']
-        if 'fast_start_deficit' in self._decision_variables:
-            del self._decision_variables['fast_start_deficit']
-            del self._objective_function_components['fast_start_deficit']
-            del self._lhs_coefficients['fast_start_deficit']
+        self._remove_constraint_set('fast_start')
+
+    def _remove_constraint_set(self, constraints_key):
+        """Remove a constraint set and its violation variables, so that setting it again replaces it completely."""
+        self._constraints_rhs_and_type.pop(constraints_key, None)
+        self._market_constraints_rhs_and_type.pop(constraints_key, None)
+        self._constraint_to_variable_map['unit_level'].pop(constraints_key, None)
+        self._constraint_to_variable_map['regional'].pop(constraints_key, None)
+        self._remove_deficit_variables(constraints_key)
+
+    def _remove_deficit_variables(self, constraints_key):
+        self._decision_variables.pop(constraints_key + '_deficit', None)
+        self._objective_function_components.pop(constraints_key + '_deficit', None)
+        self._lhs_coefficients.pop(constraints_key + '_deficit', None)
 
     def _validate_fast_start_profiles(self, fast_start_profiles):
         schema = dv.DataFrameSchema(name='fast_start_profiles', primary_keys=['unit'])
@@ -1140,6 +1153,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_demand(demand)
         rhs_and_type, variable_map = market_constraints.energy(demand, self._next_constraint_id)
+        self._remove_constraint_set('demand')
         self._market_constraints_rhs_and_type['demand'] = rhs_and_type
         self._constraint_to_variable_map['regional']['demand'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1245,6 +1259,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
+        self._remove_constraint_set('fcas')
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1344,6 +1359,7 @@ class SpotMarket:
             self._validate_fcas_max_availability(fcas_max_availability)
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
                                                                             self._next_constraint_id)
+        self._remove_constraint_set('fcas_max_availability')
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1544,6 +1560,10 @@ class SpotMarket:
         ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg[
             ~ramp_up_rates_for_raise_reg['unit'].isin(self._bidirectional_units)]
 
+        for constraints_key in ['joint_ramping_raise_reg', 'joint_ramping_raise_reg_bdu',
+                                'joint_ramping_lower_reg', 'joint_ramping_lower_reg_bdu']:
+            self._remove_constraint_set(constraints_key)
+
         if not ramp_up_rates_for_raise_reg.empty:
             rhs_and_type, variable_map = \
                 fcas_constraints.joint_ramping_constraints_raise_reg(
@@ -1727,6 +1747,7 @@ class SpotMarket:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
             contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
+        self._remove_constraint_set('joint_capacity')
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1866,6 +1887,7 @@ class SpotMarket:
                 regulation_trapeziums, self._next_constraint_id
 
             )
+        self._remove_constraint_set('energy_and_regulation_capacity')
         self._constraints_rhs_and_type['energy_and_regulation_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['energy_and_regulation_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -2361,6 +2383,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_generic_constraint_parameters(generic_constraint_parameters)
         type_and_rhs = hf.save_index(generic_constraint_parameters, 'constraint_id', self._next_constraint_id)
+        self._remove_constraint_set('generic')
         self._constraints_rhs_and_type['generic'] = type_and_rhs.loc[:, ['set', 'constraint_id', 'type', 'rhs']]
         self._next_constraint_id = type_and_rhs['constraint_id'].max() + 1
 
@@ -2737,6 +2760,7 @@ class SpotMarket:
         else:
             ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
+        self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
             self._decision_variables[constraints_key + '_deficit'] = \
@@ -2852,6 +2876,8 @@ class SpotMarket:
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
 
+        self._remove_constraint_set('tie_break')
+        self._lhs_coefficients.pop('tie_break', None)
         if not rhs.empty:
             self._lhs_coefficients['tie_break'] = lhs
             self._constraints_rhs_and_type['tie_break'] = rhs
-- 
2.43.0


From f8d69c9f3530139016a0197ff236363981bec432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 07/17] fix: region summary keeps regions without
 interconnectors

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 4bf4a3b..bbd04e9 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3574,10 +3574,12 @@ class SpotMarket:
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
             dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
+            dispatch_summary = dispatch_summary.fillna(0.0)
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+            dispatch_summary = dispatch_summary.fillna(0.0)
         return dispatch_summary
 
     def _get_net_unit_dispatch_by_region(self):
-- 
2.43.0


From ccc886df45c733b1223e6d4d823db68e456fd62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:30 +0000
Subject: [PATCH 08/17] fix: transmission losses of the region summary follow
 the demand constraints

With loss factors other than one the summary did not balance: sending ends used
flow / loss_factor, and flow towards the from region had the wrong sign.
---
 src/nempy/markets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index bbd04e9..25f4006 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3691,10 +3691,11 @@ class SpotMarket:
         flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])
 
         def calc_losses(direction, flow, loss_factor):
-            if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
+            # The demand constraints count flow * loss_factor as entering the to region and leaving the from region.
+            if direction == 'to_region':
                 losses = flow * (1 - loss_factor)
-            elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
-                losses = abs(flow) - (abs(flow) / loss_factor)
+            else:
+                losses = flow * (loss_factor - 1)
             return losses
 
         flows_and_losses['transmission_losses'] = \
-- 
2.43.0


From 803ed13f0a6e2bb8d1c9509141c754748bdfdebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:19 +0000
Subject: [PATCH 09/17] fix: violation costs given as a table have one row per
 set

---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 25f4006..836e87d 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2772,7 +2772,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
-- 
2.43.0


From ad462e67d61466a8443eb7e57adec7f4d9a17310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 10/17] fix: raise the errors that were only constructed

---
 src/nempy/markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 836e87d..a202d0d 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2229,7 +2229,8 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError(
+                'Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
@@ -2758,7 +2759,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
-- 
2.43.0


From 219a8044d7f1e39dc88262653f6aca01a8c8eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:31 +0000
Subject: [PATCH 11/17] fix: fcas availability of each side of a bidirectional
 unit uses all of its own limits

Joint ramping constraints of bidirectional units were ignored and the limits of
one side were applied to the dispatch of the other.
---
 src/nempy/markets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index a202d0d..919cd25 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3817,11 +3817,13 @@ class SpotMarket:
         """
         fcas_variable_slack = []
         for constraint_type in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
+                                'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu',
                                 'joint_capacity', 'energy_and_regulation_capacity', 'bidirectional_ramp_up',
                                 'bidirectional_ramp_down']:
             if constraint_type in self._constraints_rhs_and_type.keys():
                 service_coefficients = self._constraint_to_variable_map['unit_level'][constraint_type]
-                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'service', 'coefficient']]
+                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'dispatch_type', 'service',
+                                                                    'coefficient']]
                 constraint_slack = self._constraints_rhs_and_type[constraint_type].loc[:, ['constraint_id', 'slack',
                                                                                            'type']]
                 slack_temp = pd.merge(service_coefficients, constraint_slack, on='constraint_id')
@@ -3834,12 +3836,13 @@ class SpotMarket:
                      ((fcas_variable_slack['coefficient'] < 0.00001) & (fcas_variable_slack['coefficient'] > -0.00001)),
                      np.inf, fcas_variable_slack['slack'].abs() / fcas_variable_slack['coefficient'].abs())
         fcas_variable_slack = \
-            fcas_variable_slack.groupby(['unit', 'service'], as_index=False).aggregate({'service_slack': 'min'})
+            fcas_variable_slack.groupby(['unit', 'dispatch_type', 'service'], as_index=False).aggregate(
+                {'service_slack': 'min'})
         fcas_variable_slack = fcas_variable_slack[fcas_variable_slack['service'] != 'energy']
 
         dispatch_levels = self.get_unit_dispatch()
 
-        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'service'])
+        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'dispatch_type', 'service'])
 
         fcas_availability['availability'] = fcas_availability['dispatch'] + fcas_availability['service_slack']
         return fcas_availability.loc[:, ['unit', 'service', 'availability']]
-- 
2.43.0


From 21b973cae36aed07ca1348d00363f051f64af0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:39 +0000
Subject: [PATCH 12/17] fix: service column of the last interval's dispatch is
 optional as documented

---
 src/nempy/time_sequential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..fb796a5 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,7 +66,9 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    last_interval_energy_dispatch = last_interval_dispatch
+    if 'service' in last_interval_dispatch.columns:
+        last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-- 
2.43.0


From a0fe685f9f5d4148f52d8421ef0765232470a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:56 +0000
Subject: [PATCH 13/17] fix: a market with constraints on none of its variables
 can be dispatched

---
 src/nempy/spot_market_backend/solver_interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 091c2d4..2181230 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -210,6 +210,10 @@ class InterfaceToSolver:
 
         """
 
+        if constraints_lhs.empty:
+            # None of the constraints involve any of the variables.
+            return
+
         constraints_lhs = constraints_lhs.groupby(['constraint_id', 'variable_id'], as_index=False).agg(
             {'coefficient': 'sum'})
         rows = constraints_lhs.groupby(['constraint_id'], as_index=False)
-- 
2.43.0


From 5b0c09bed4e928c0689e5aa395899c4a21a2d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:48 +0000
Subject: [PATCH 14/17] fix: the tables provided by the user are not modified

---
 src/nempy/markets.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 919cd25..db243b2 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -121,6 +121,7 @@ class SpotMarket:
         self.solver_name = 'CBC'
         self.objective_value = None
 
+        unit_info = unit_info.copy()  # The tables provided by the user are not modified.
         if 'loss_factor' not in unit_info.columns:
             unit_info['loss_factor'] = 1.0
 
@@ -260,7 +261,7 @@ class SpotMarket:
         self._validate_bidirectional_unit_inputs(volume_bids, "volume_bids")
 
         self._decision_variables['bids'], variable_to_unit_level_constraint_map, variable_to_regional_constraint_map, = \
-            variable_ids.bids(volume_bids, self._unit_info, self._next_variable_id, self._bidirectional_units)
+            variable_ids.bids(volume_bids.copy(), self._unit_info, self._next_variable_id, self._bidirectional_units)
 
         self._variable_to_constraint_map['regional']['bids'] = variable_to_regional_constraint_map
         self._variable_to_constraint_map['unit_level']['bids'] = variable_to_unit_level_constraint_map
@@ -397,7 +398,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_price_bids(price_bids)
         self._validate_bidirectional_unit_inputs(price_bids, "price_bids")
-        energy_objective_function = objective_function.bids(self._decision_variables['bids'], price_bids)
+        energy_objective_function = objective_function.bids(self._decision_variables['bids'], price_bids.copy())
         energy_objective_function = objective_function.scale_by_loss_factors(energy_objective_function, self._unit_info)
         self._objective_function_components['bids'] = \
             energy_objective_function.loc[:, ['variable_id', 'unit', 'service', 'dispatch_type', 'capacity_band',
@@ -520,7 +521,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_unit_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.capacity(
-            unit_limits,
+            unit_limits.copy(),
             self._next_constraint_id,
             self._bidirectional_units
         )
@@ -635,7 +636,7 @@ class SpotMarket:
         """
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
-        rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
+        rhs_and_type, variable_map = unit_constraints.uigf(unit_limits.copy(), self._next_constraint_id)
         self._remove_constraint_set('uigf_capacity')
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
@@ -828,6 +829,7 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        ramp_details = ramp_details.copy()
         if "dispatch_type" not in ramp_details.columns:
             ramp_details["dispatch_type"] = "generator"
 
@@ -1258,7 +1260,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
-        rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
+        rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements.copy(), self._next_constraint_id)
         self._remove_constraint_set('fcas')
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
@@ -1357,7 +1359,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_fcas_max_availability(fcas_max_availability)
-        rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
+        rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability.copy(),
                                                                             self._next_constraint_id)
         self._remove_constraint_set('fcas_max_availability')
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
@@ -1746,7 +1748,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
-            contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
+            contingency_trapeziums.copy(), self._bidirectional_units, self._next_constraint_id)
         self._remove_constraint_set('joint_capacity')
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
@@ -1884,7 +1886,7 @@ class SpotMarket:
             self._validate_regulation_trapeziums(regulation_trapeziums)
         rhs_and_type, variable_map = \
             fcas_constraints.energy_and_regulation_capacity_constraints(
-                regulation_trapeziums, self._next_constraint_id
+                regulation_trapeziums.copy(), self._next_constraint_id
 
             )
         self._remove_constraint_set('energy_and_regulation_capacity')
@@ -2008,6 +2010,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
+        interconnector_directions_and_limits = interconnector_directions_and_limits.copy()
         if 'link' not in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
         if 'from_region_loss_factor' not in interconnector_directions_and_limits.columns:
@@ -2232,9 +2235,11 @@ class SpotMarket:
             raise ModelBuildError(
                 'Interconnector losses cannot be set before interconnectors have been added to the model.')
 
+        loss_functions = loss_functions.copy()
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
+        interpolation_break_points = interpolation_break_points.copy()
         if 'link' not in interpolation_break_points.columns:
             interpolation_break_points['link'] = interpolation_break_points['interconnector']
 
-- 
2.43.0


From 799f792760d7f46b43e08ce30d25d53b578a68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:28 +0000
Subject: [PATCH 15/17] fix: use the over-constrained rerun file name only when
 that file exists

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..3eb1f22 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -153,7 +153,7 @@ class XMLCacheManager:
         path_name_OCD = Path(self.cache_folder) / name_OCD
         if os.path.exists(path_name):
             return name
-        elif path_name_OCD:
+        elif os.path.exists(path_name_OCD):
             return name_OCD
         else:
             return name
-- 
2.43.0


From 17b2049248bea364e4202b162ff1bdd4c2f5b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:47 +0000
Subject: [PATCH 16/17] fix: reject unknown inequality types in generic
 constraint parameters

---
 src/nempy/markets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index db243b2..9586668 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2396,11 +2396,10 @@ class SpotMarket:
         if violation_cost is not None:
             self.make_constraints_elastic('generic', violation_cost)
 
-    @staticmethod
-    def _validate_generic_constraint_parameters(generic_constraint_parameters):
+    def _validate_generic_constraint_parameters(self, generic_constraint_parameters):
         schema = dv.DataFrameSchema(name='generic_constraint_parameters', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
-        schema.add_column(dv.SeriesSchema(name='type', data_type=str))
+        schema.add_column(dv.SeriesSchema(name='type', data_type=str, allowed_values=self._allowed_constraint_types))
         schema.add_column(dv.SeriesSchema(name='rhs', data_type=np.float64, must_be_real_number=True))
         schema.validate(generic_constraint_parameters)
 
-- 
2.43.0


From 6b920e22e90350d1e286d38655649168f7b2cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:47 +0000
Subject: [PATCH 17/17] fix: list each right hand side that depends on a value
 once, following nested generic equations

---
 src/nempy/historical_inputs/rhs_calculator.py | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..9892ba5 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -382,19 +382,28 @@ class RHSCalc:
         list[str] a list of strings detailing the constraits' whose RHS equations depend on the specified value.
         """
         dependent_generic_equations = []
-        for equation_id, equation in self.generic_equations.items():
+
+        def depends_on_value(equation):
             for term in equation:
-                if (term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                        dependent_generic_equations):
+                if term["@SpdID"] == spd_id and term['@SpdType'] == type:
+                    return True
+                if term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X':
+                    return True
+            return False
+
+        # Generic equations can reference other generic equations, so repeat until no more dependents are found.
+        found_dependent = True
+        while found_dependent:
+            found_dependent = False
+            for equation_id, equation in self.generic_equations.items():
+                if equation_id not in dependent_generic_equations and depends_on_value(equation):
                     dependent_generic_equations.append(equation_id)
+                    found_dependent = True
 
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
-            for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
-                    dependent_rhs_equations.append(equation_id)
+            if depends_on_value(equation):
+                dependent_rhs_equations.append(equation_id)
 
         return dependent_rhs_equations
 
-- 
2.43.0

