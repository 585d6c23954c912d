From 5d30138e9382e67695b636f2624e5769a6ebe712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 01/47] fix: combine wildcard dims the same way in either order

combine_dims compared dims2 with itself, so (['*', 'z'], ['x', 'z']) was
accepted but (['x', 'z'], ['*', 'z']) was rejected, and (['*', 'z'], ['x'])
was accepted although the result does not include z.
---
 sympl/_core/combine_properties.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index 623a3cf..d866132 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -32,7 +32,7 @@ def combine_dims(dims1, dims2):
     dims2_wildcard = '*' in dims2
     dims2.discard('*')
     unmatched_dims = set(dims1).union(dims2).difference(dims_out)
-    shared_dims = set(dims2).intersection(dims2)
+    shared_dims = set(dims1).intersection(dims2)
     if dims1_wildcard and dims2_wildcard:
         dims_out.insert(0, '*')  # either dim can match anything
         dims_out.extend(unmatched_dims)
@@ -42,12 +42,12 @@ def combine_dims(dims1, dims2):
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims1_wildcard:
-        if shared_dims != set(dims2):
+        if shared_dims != set(dims1):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims2_wildcard:
-        if shared_dims != set(dims1):
+        if shared_dims != set(dims2):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
-- 
2.43.0


From ebe8d8d15984eaba3b95694d035329acb8d3ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 02/47] fix: is_valid_unit returns False for unit strings that
 cannot be parsed

---
 sympl/_core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index d2977e8..cee1ce1 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -68,7 +68,7 @@ def is_valid_unit(unit_string):
         '°', 'degree')
     try:
         unit_registry(unit_string)
-    except pint.UndefinedUnitError:
+    except Exception:  # pint raises many types for strings it cannot parse
         return False
     else:
         return True
-- 
2.43.0


From 548ddcdaa0f066438e26172b1c5c451a3e60642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 03/47] fix: datetime raises ValueError for an unknown calendar
 instead of returning None

---
 sympl/_core/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/time.py b/sympl/_core/time.py
index f0401d8..43949dc 100644
--- a/sympl/_core/time.py
+++ b/sympl/_core/time.py
@@ -65,6 +65,8 @@ def datetime(
         return ct.DatetimeJulian(**kwargs)
     elif calendar.lower() == 'gregorian':
         return ct.DatetimeGregorian(**kwargs)
+    else:
+        raise ValueError('unknown calendar {}'.format(calendar))
 
 
 __all__ = (datetime, timedelta)
-- 
2.43.0


From 5c9599775706e1bafb0ecfa469c78a0bbeee196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 04/47] fix: get_constants_string works when a condensible
 lacks some constants

---
 sympl/_core/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/constants.py b/sympl/_core/constants.py
index 15d2ae4..492d76c 100644
--- a/sympl/_core/constants.py
+++ b/sympl/_core/constants.py
@@ -14,6 +14,8 @@ class ConstantDict(dict):
             if len(name_list) > 0:
                 return_string += category.title() + '\n'
             for name in name_list:
+                if get_alias(name) not in self:
+                    continue  # e.g. not given for the current condensible
                 printed_names.add(name)
                 units = self[name].attrs['units']
                 units = units.replace('dimensionless', '')
-- 
2.43.0


From dfe38079806fd66cfeb5c54e6526c46f056d1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 05/47] fix: registering a tracer again does not list it twice,
 and a rejected tracer is not registered

---
 sympl/_core/tracers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index ef67982..3d2d864 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -38,10 +38,11 @@ def register_tracer(name, units):
                 name, _tracer_unit_dict[name], units
             )
         )
-    _tracer_unit_dict[name] = units
-    _tracer_names.append(name)
     for packer in _packers:
         packer.ensure_tracer_not_in_outputs(name, units)
+    if name not in _tracer_unit_dict:
+        _tracer_names.append(name)
+    _tracer_unit_dict[name] = units
 
 
 def get_tracer_unit_dict():
-- 
2.43.0


From 16caaee60ebde0d695219b23476858af320aacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 06/47] fix: count a tracer that is both registered and
 prepended once when initializing arrays

---
 sympl/_core/init_np_arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/init_np_arrays.py b/sympl/_core/init_np_arrays.py
index c6298a2..bb78fdb 100644
--- a/sympl/_core/init_np_arrays.py
+++ b/sympl/_core/init_np_arrays.py
@@ -42,7 +42,8 @@ def initialize_numpy_arrays_with_properties(
         output_properties, input_properties, [])
     out_dict = {}
     tracer_names = list(get_tracer_names())
-    tracer_names.extend(entry[0] for entry in prepend_tracers)
+    tracer_names.extend(
+        entry[0] for entry in prepend_tracers if entry[0] not in tracer_names)
     for name, out_dims in dims_from_out_properties.items():
         if tracer_dims is None or name not in tracer_names:
             out_shape = []
-- 
2.43.0


From e76bb007772ed5343adc1dbe7f839c0d0a909a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 07/47] fix: ScalingWrapper scales copies of outputs instead of
 scaling them in place

The output arrays can be owned by the wrapped component (constant or cached
output) or by the input state, in which case each call scaled them again.
---
 sympl/_core/wrappers.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 63bb902..1fe0378 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -3,6 +3,13 @@ from .._core.base_components import (
 )
 
 
+def scale_quantity(quantity, scale_factor):
+    """Returns a scaled copy of the quantity which keeps its attributes."""
+    scaled_quantity = quantity*float(scale_factor)
+    scaled_quantity.attrs = quantity.attrs
+    return scaled_quantity
+
+
 class ScalingWrapper(object):
     """
     Wraps any component and scales either inputs, outputs or tendencies
@@ -142,8 +149,8 @@ class ScalingWrapper(object):
         for input_field in self.input_properties.keys():
             if input_field in self._input_scale_factors:
                 scale_factor = self._input_scale_factors[input_field]
-                scaled_state[input_field] = state[input_field]*float(scale_factor)
-                scaled_state[input_field].attrs = state[input_field].attrs
+                scaled_state[input_field] = scale_quantity(
+                    state[input_field], scale_factor)
             else:
                 scaled_state[input_field] = state[input_field]
 
@@ -153,19 +160,20 @@ class ScalingWrapper(object):
             diagnostics, new_state = self._component(scaled_state, timestep)
             for name in self._output_scale_factors.keys():
                 scale_factor = self._output_scale_factors[name]
-                new_state[name] *= float(scale_factor)
+                new_state[name] = scale_quantity(new_state[name], scale_factor)
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
             tendencies, diagnostics = self._component(scaled_state)
             for tend_field in self._tendency_scale_factors.keys():
                 scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
+                tendencies[tend_field] = scale_quantity(
+                    tendencies[tend_field], scale_factor)
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return tendencies, diagnostics
         elif isinstance(self._component, ImplicitTendencyComponent):
             if timestep is None:
@@ -173,16 +181,17 @@ class ScalingWrapper(object):
             tendencies, diagnostics = self._component(scaled_state, timestep)
             for tend_field in self._tendency_scale_factors.keys():
                 scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
+                tendencies[tend_field] = scale_quantity(
+                    tendencies[tend_field], scale_factor)
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return tendencies, diagnostics
         elif isinstance(self._component, DiagnosticComponent):
             diagnostics = self._component(scaled_state)
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return diagnostics
         else:  # Should never reach this
             raise RuntimeError(
-- 
2.43.0


From d5ed21d2cc1e0318fcb54fdc8138c378c31664ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 08/47] fix: ScalingWrapper passes tracers on to the wrapped
 component

---
 sympl/_core/wrappers.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 1fe0378..7b15736 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -142,17 +142,12 @@ class ScalingWrapper(object):
         *args
             The return values of the underlying component.
         """
-        scaled_state = {}
-        if 'time' in state:
-            scaled_state['time'] = state['time']
-
+        scaled_state = state.copy()  # includes tracers and the time
         for input_field in self.input_properties.keys():
             if input_field in self._input_scale_factors:
                 scale_factor = self._input_scale_factors[input_field]
                 scaled_state[input_field] = scale_quantity(
                     state[input_field], scale_factor)
-            else:
-                scaled_state[input_field] = state[input_field]
 
         if isinstance(self._component, Stepper):
             if timestep is None:
-- 
2.43.0


From 8ed24d8a5aa0cd759ef876bcce17c3214b58e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 09/47] fix: tendencies_in_diagnostics does not modify
 properties shared with other instances

---
 sympl/_core/base_components.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 2583fbd..a3716ed 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -26,6 +26,17 @@ def apply_scale_factors(array_state, scale_factors):
         array_state[key] *= factor
 
 
+def make_properties_instance_specific(component, property_name):
+    """
+    Replaces a properties dictionary that is a class attribute, and so is
+    shared with other instances, by a copy on the given component, so that it
+    can be modified for only that component.
+    """
+    if (property_name not in vars(component) and
+            isinstance(getattr(type(component), property_name, None), dict)):
+        setattr(component, property_name, getattr(component, property_name).copy())
+
+
 def is_component_class(cls):
     return any(issubclass(cls, cls2) for cls2 in (Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent))
 
@@ -516,6 +527,8 @@ class Stepper(object):
         super(Stepper, self).__init__()
 
     def _insert_tendency_properties(self):
+        make_properties_instance_specific(self, 'diagnostic_properties')
+        make_properties_instance_specific(self, 'input_properties')
         added_names = []
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
@@ -774,6 +787,7 @@ class TendencyComponent(object):
         return self._tendencies_in_diagnostics
 
     def _insert_tendency_properties(self):
+        make_properties_instance_specific(self, 'diagnostic_properties')
         added_names = []
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
@@ -997,6 +1011,7 @@ class ImplicitTendencyComponent(object):
         return self._tendencies_in_diagnostics
 
     def _insert_tendency_properties(self):
+        make_properties_instance_specific(self, 'diagnostic_properties')
         added_names = []
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
-- 
2.43.0


From fdce0694d5349e0ace5339d94089c4b1a60689b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 10/47] fix: Stepper can put tendencies of aliased quantities
 in diagnostics

---
 sympl/_core/base_components.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index a3716ed..a6d88c0 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -1,6 +1,7 @@
 import abc
 from .get_np_arrays import get_numpy_arrays_with_properties
-from .restore_dataarray import restore_data_arrays_with_properties
+from .restore_dataarray import (
+    get_alias_or_name, restore_data_arrays_with_properties)
 from .time import timedelta
 from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
@@ -650,8 +651,12 @@ class Stepper(object):
             self, raw_state, raw_new_state, timestep, raw_diagnostics):
         for name in self.output_properties.keys():
             tendency_name = self._get_tendency_name(name)
+            new_value = raw_new_state[get_alias_or_name(
+                name, self.output_properties, self.input_properties)]
+            old_value = raw_state[
+                self.input_properties[name].get('alias', name)]
             raw_diagnostics[tendency_name] = (
-                (raw_new_state[name] - raw_state[name]) /
+                (new_value - old_value) /
                 timestep.total_seconds() * self.time_unit_timedelta.total_seconds())
 
     @abc.abstractmethod
-- 
2.43.0


From ed0a50690bcebaf57a89069bf6a2534ac6e29e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 11/47] fix: Stepper labels tendencies in diagnostics with its
 own time unit

---
 sympl/_core/base_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index a6d88c0..1d40ed7 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -534,9 +534,10 @@ class Stepper(object):
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
             if properties['units'] == '':
-                units = 's^-1'
+                units = '{}^-1'.format(self.time_unit_name)
             else:
-                units = '{} s^-1'.format(properties['units'])
+                units = '{} {}^-1'.format(
+                    properties['units'], self.time_unit_name)
             if 'dims' in properties.keys():
                 dims = properties['dims']
             else:
-- 
2.43.0


From 2b800bb167183d4ec2d984e69530279a162c0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 12/47] fix: composites can add a float tendency to an integer
 one

---
 sympl/_core/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 2e3df85..4d5cd8a 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -213,7 +213,9 @@ def update_dict_by_adding_another(dict1, dict2):
                         'quantity objects must have units property defined')
                 try:
                     dict1[key] += dict2[key].to_units(dict1[key].attrs['units'])
-                except ValueError:  # dict1[key] is missing a dimension present in dict2[key]
+                # ValueError if dict1[key] is missing a dimension present in dict2[key]
+                # TypeError if dict1[key] cannot hold the type of the sum
+                except (ValueError, TypeError):
                     dict1[key] = dict1[key] + dict2[key].to_units(dict1[key].attrs['units'])
             else:
                 dict1[key] += dict2[key]  # += is in-place addition operator
-- 
2.43.0


From 55f1d4f79da48d5a46fa4f1c91090a0fcf6a1508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 13/47] fix: NetCDFMonitor does not truncate timedeltas whose
 unit conversion is inexact

---
 sympl/_components/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 0f0fb7e..3123bf9 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -265,7 +265,8 @@ def append_times_to_dataset(times, dataset, time_units):
             times_list.append(time.total_seconds())
         time_array = from_unit_to_another(
             np.array(times_list), 'seconds', time_units)
-        dataset.variables['time'][it_start:it_end] = time_array[:]
+        # conversion may not be exact, and an integer is stored
+        dataset.variables['time'][it_start:it_end] = np.round(time_array)
     else:  # assume datetime
         dataset.variables['time'][it_start:it_end] = nc4.date2num(
             times, dataset.variables['time'].units,
-- 
2.43.0


From fe64a66a9f7a76e776967f2806a14da0163da0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 14/47] fix: NetCDFMonitor and RestartMonitor can store scalar
 quantities

---
 sympl/_components/netcdf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 3123bf9..839fe51 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -181,8 +181,7 @@ class NetCDFMonitor(Monitor):
             all_states = combine_states(state_list)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
-                dataset.variables[name][
-                    it_start:it_end, :] = value.values[:, :]
+                dataset.variables[name][it_start:it_end] = value.values
         self._cached_state_dict = {}
 
     def _ensure_time_exists(self, dataset, possible_reference_time):
@@ -249,7 +248,7 @@ class RestartMonitor(Monitor):
         dataset = xr.open_dataset(self._filename)
         state = {}
         for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, :])  # remove time axis
+            state[name] = DataArray(value[0])  # remove time axis
         state['time'] = datetime64_to_datetime(dataset['time'][0].values)
         return state
 
@@ -287,7 +286,7 @@ def combine_states(states):
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
-            return_dict[name][i, :] = state[name][:]
+            return_dict[name][i] = state[name]
     return return_dict
 
 
-- 
2.43.0


From 8e7cf938095d55a6313b3e596dee0f36c88f69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 15/47] fix: NetCDFMonitor.write does nothing when there are no
 cached states

---
 sympl/_components/netcdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 839fe51..2015b8e 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -171,6 +171,8 @@ class NetCDFMonitor(Monitor):
             If cached states do not all have the same quantities
             as every other cached and written state.
         """
+        if len(self._cached_state_dict) == 0:
+            return  # nothing to write
         with nc4.Dataset(self._filename, self._write_mode) as dataset:
             self._ensure_cached_state_keys_compatible_with_dataset(dataset)
             time_list, state_list = self._get_ordered_times_and_states()
-- 
2.43.0


From a402e0b14e6f53395080133f7863b080d6c8fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 16/47] fix: NetCDFMonitor aliases neither overwrite another
 quantity nor apply to the time

---
 sympl/_components/netcdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 2015b8e..7d7a502 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -86,6 +86,7 @@ class NetCDFMonitor(Monitor):
             cache_state = {name: state[name] for name in name_list}
         else:
             cache_state = state.copy()
+        cache_state.pop('time')  # stored as key, not needed in state dict
 
         # raise an exception if the state has any empty string variables
         for full_var_name in cache_state.keys():
@@ -105,9 +106,13 @@ class NetCDFMonitor(Monitor):
                         errstr = 'Tried to alias variable "{}" to an empty string.\n' + \
                                  'xarray will not allow empty strings as variable names.'
                         raise ValueError(errstr.format(full_var_name))
+                    if alias_name != full_var_name and (
+                            alias_name == 'time' or alias_name in cache_state):
+                        raise ValueError(
+                            'Tried to alias variable "{}" to "{}", which is already '
+                            'in use.'.format(full_var_name, alias_name))
                     cache_state[alias_name] = cache_state.pop(full_var_name)
 
-        cache_state.pop('time')  # stored as key, not needed in state dict
         if state['time'] in self._cached_state_dict.keys():
             self._cached_state_dict[state['time']].update(cache_state)
         else:
-- 
2.43.0


From 5de429ce76fa547ff496eb3c20f511c5ed0205c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 17/47] fix: NetCDFMonitor writes states as they were when they
 were stored

---
 sympl/_components/netcdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 7d7a502..f2c40bd 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -113,6 +113,9 @@ class NetCDFMonitor(Monitor):
                             'in use.'.format(full_var_name, alias_name))
                     cache_state[alias_name] = cache_state.pop(full_var_name)
 
+        # the state may be modified before it is written
+        cache_state = {
+            name: value.copy(deep=True) for name, value in cache_state.items()}
         if state['time'] in self._cached_state_dict.keys():
             self._cached_state_dict[state['time']].update(cache_state)
         else:
-- 
2.43.0


From 60b73f469700dcec28dd9d25e6010a243e7fd38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 18/47] fix: NetCDFMonitor does not truncate floats stored
 after integers

---
 sympl/_components/netcdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index f2c40bd..dd08804 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -291,8 +291,9 @@ def combine_states(states):
     return_dict = {}
     n_states = len(states)
     for name, value in states[0].items():
+        dtype = np.result_type(*[state[name].dtype for state in states])
         return_dict[name] = DataArray(
-            np.zeros((n_states,) + value.shape, dtype=value.values.dtype),
+            np.zeros((n_states,) + value.shape, dtype=dtype),
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
@@ -335,6 +336,10 @@ def create_variable(dataset, name, data):
 
 
 def ensure_variable_is_compatible(variable, name, data):
+    if not np.can_cast(data.dtype, variable.dtype, casting='same_kind'):
+        raise InvalidStateError(
+            'State has type {} for quantity {} but the type in the netCDF '
+            'file is {}'.format(data.dtype, name, variable.dtype))
     if variable.dimensions != data.dims:
         raise IOError(
             'Dimension in file is {} but on variable is {}'.format(
-- 
2.43.0


From c2de64f9dfae09ff31c22a06f6d5e6ef84c91780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 19/47] fix: NetCDFMonitor refuses a quantity whose units
 differ between cached states

It already refuses units different from those in the file, but within one
write it labelled every value with the units of the first state.
---
 sympl/_components/netcdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index dd08804..1ce72d6 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -297,6 +297,12 @@ def combine_states(states):
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
+            if state[name].attrs.get('units') != return_dict[name].attrs.get('units'):
+                raise InvalidStateError(
+                    'Quantity {} has different units at different times: {} '
+                    'vs. {}'.format(
+                        name, return_dict[name].attrs.get('units'),
+                        state[name].attrs.get('units')))
             return_dict[name][i] = state[name]
     return return_dict
 
-- 
2.43.0


From ca46687d2f448056890faa745157395f168dafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 20/47] fix: NetCDFMonitor does not append times of states it
 then refuses to write

---
 sympl/_components/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 1ce72d6..72f4195 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -187,10 +187,11 @@ class NetCDFMonitor(Monitor):
             self._ensure_time_exists(dataset, time_list[0])
             it_start = dataset.dimensions['time'].size
             it_end = it_start + len(time_list)
-            append_times_to_dataset(time_list, dataset, self._time_units)
             all_states = combine_states(state_list)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
+            append_times_to_dataset(time_list, dataset, self._time_units)
+            for name, value in all_states.items():
                 dataset.variables[name][it_start:it_end] = value.values
         self._cached_state_dict = {}
 
-- 
2.43.0


From 1d1be8859ad0aee84ec019b68554b92998d13bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 21/47] fix: NetCDFMonitor stores times using the calendar of
 the state times

---
 sympl/_components/netcdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 72f4195..b152115 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -209,7 +209,8 @@ class NetCDFMonitor(Monitor):
                     'units', '{} since {}'.format(
                         self._time_units, possible_reference_time))
                 dataset.variables['time'].setncattr(
-                    'calendar', 'proleptic_gregorian')
+                    'calendar', getattr(
+                        possible_reference_time, 'calendar', 'proleptic_gregorian'))
 
 
 class RestartMonitor(Monitor):
@@ -280,7 +281,7 @@ def append_times_to_dataset(times, dataset, time_units):
     else:  # assume datetime
         dataset.variables['time'][it_start:it_end] = nc4.date2num(
             times, dataset.variables['time'].units,
-            calendar='proleptic_gregorian'
+            calendar=dataset.variables['time'].calendar
         )
 
 
-- 
2.43.0


From 6e9333cdfeb4ce97c3ed1486c2697dc4fc6302cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:52 +0000
Subject: [PATCH 22/47] fix: RestartMonitor.load gives back the state that was
 stored

It failed on timedelta times, on times outside the range of datetime64 and on
calendars other than proleptic_gregorian, dropped quantities named like one of
their dimensions, turned quantities with units of time into timedelta64 values
without units, and left the file open.
---
 sympl/_components/netcdf.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index b152115..698e18c 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -3,11 +3,11 @@ from .._core.exceptions import (
     DependencyError, InvalidStateError)
 from .._core.units import from_unit_to_another
 from .._core.dataarray import DataArray
-from .._core.util import same_list, datetime64_to_datetime
+from .._core.util import same_list
 import xarray as xr
 import os
 import numpy as np
-from datetime import timedelta
+from datetime import datetime, timedelta
 from six import string_types
 
 try:
@@ -257,14 +257,35 @@ class RestartMonitor(Monitor):
         state : dict
             The model state stored in the restart file.
         """
-        dataset = xr.open_dataset(self._filename)
         state = {}
-        for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0])  # remove time axis
-        state['time'] = datetime64_to_datetime(dataset['time'][0].values)
+        with nc4.Dataset(self._filename) as dataset:
+            dataset.set_auto_maskandscale(False)  # values are stored as they are
+            for name, variable in dataset.variables.items():
+                if name == 'time':
+                    state[name] = get_time(variable)
+                else:
+                    state[name] = DataArray(
+                        variable[0],  # remove time axis
+                        dims=variable.dimensions[1:],
+                        attrs={key: variable.getncattr(key)
+                               for key in variable.ncattrs()})
         return state
 
 
+def get_time(variable):
+    """Returns the first time in the given netCDF time variable, as the type
+    of time (timedelta or datetime) that was stored there."""
+    if ' since ' not in variable.units:
+        return timedelta(seconds=from_unit_to_another(
+            float(variable[0]), variable.units, 'seconds'))
+    time = nc4.num2date(variable[0], variable.units, variable.calendar)
+    if variable.calendar == 'proleptic_gregorian':
+        time = datetime(
+            time.year, time.month, time.day, time.hour, time.minute,
+            time.second, time.microsecond)
+    return time
+
+
 def append_times_to_dataset(times, dataset, time_units):
     """Appends the given list of times to the dataset. Assumes the time units
     in the NetCDF4 dataset correspond to the string time_units."""
-- 
2.43.0


From fe4cebe0d4a93955856678264e0b3e9ef4831a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 23/47] fix: RestartMonitor keeps fractions of a second of
 timedelta times

---
 sympl/_components/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 698e18c..b471c76 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -238,7 +238,7 @@ class RestartMonitor(Monitor):
         new_filename = self._filename + '.new'
         if os.path.isfile(new_filename):
             raise IOError('Filename {} already exists'.format(new_filename))
-        netcdf_monitor = NetCDFMonitor(new_filename)
+        netcdf_monitor = NetCDFMonitor(new_filename, time_units='microseconds')
         netcdf_monitor.store(state)
         netcdf_monitor.write()
 
-- 
2.43.0


From a17195c94994f264e26983933a51ad7097a467b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 24/47] fix: SSPRungeKutta does not modify quantities which
 have no tendencies

---
 sympl/_components/timesteppers.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index d0f7328..af66ef8 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -57,9 +57,9 @@ class SSPRungeKutta(TendencyStepper):
     def _step_3_stages(self, state, timestep):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         _, state_1_5 = self._euler_stepper(state_1, timestep)
-        state_2 = add(multiply(0.75, state), multiply(0.25, state_1_5))
+        state_2 = weighted_sum(0.75, state, 0.25, state_1_5)
         _, state_2_5 = self._euler_stepper(state_2, timestep)
-        out_state = add(multiply(1./3, state), multiply(2./3, state_2_5))
+        out_state = weighted_sum(1./3, state, 2./3, state_2_5)
         return diagnostics, out_state
 
     def _step_2_stages(self, state, timestep):
@@ -67,10 +67,23 @@ class SSPRungeKutta(TendencyStepper):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         assert state_1 is not None
         _, state_2 = self._euler_stepper(state_1, timestep)
-        out_state = multiply(0.5, add(state, state_2))
+        out_state = weighted_sum(0.5, state, 0.5, state_2)
         return diagnostics, out_state
 
 
+def weighted_sum(weight_1, state_1, weight_2, state_2):
+    """Return the weighted sum of two states, whose weights should sum to 1.
+    Quantities which were not stepped, and so are the same object in both
+    states, are not modified."""
+    stepped_names = [
+        name for name in state_1.keys() if state_1[name] is not state_2[name]]
+    return_state = state_1.copy()
+    return_state.update(add(
+        multiply(weight_1, {name: state_1[name] for name in stepped_names}),
+        multiply(weight_2, {name: state_2[name] for name in stepped_names})))
+    return return_state
+
+
 class AdamsBashforth(TendencyStepper):
     """A TendencyStepper using the Adams-Bashforth scheme."""
 
-- 
2.43.0


From f36c0c9760525b01febcc4dc42e870f15f6499a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 25/47] fix: outputs with a wildcard dimension must have the
 shape their dims declare

An output of the right size but the wrong shape, such as one with its axes
swapped, was silently reshaped, giving scrambled values. Outputs without a
wildcard already have their shape checked.
---
 sympl/_core/restore_dataarray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 33da61d..de4dd5f 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -117,6 +117,7 @@ def restore_data_arrays_with_properties(
             for dim_name, length in zip(out_dims, raw_arrays[raw_name].shape):
                 if dim_name not in dim_lengths and dim_name != "*":
                     dim_lengths[dim_name] = length
+            check_array_shape(out_dims, raw_arrays[raw_name], name, dim_lengths)
             out_dims_without_wildcard, target_shape = fill_dims_wildcard(
                 out_dims, dim_lengths, wildcard_names
             )
-- 
2.43.0


From 64cbc7f2852a4685b641fd7abf411561e7bcb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:13 +0000
Subject: [PATCH 26/47] fix: ScalingWrapper does not replace entries in dicts
 its component may have cached

---
 sympl/_core/wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 7b15736..8fe0a14 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -153,6 +153,7 @@ class ScalingWrapper(object):
             if timestep is None:
                 raise TypeError('Must give timestep to call Stepper.')
             diagnostics, new_state = self._component(scaled_state, timestep)
+            diagnostics, new_state = dict(diagnostics), dict(new_state)
             for name in self._output_scale_factors.keys():
                 scale_factor = self._output_scale_factors[name]
                 new_state[name] = scale_quantity(new_state[name], scale_factor)
@@ -162,6 +163,7 @@ class ScalingWrapper(object):
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
             tendencies, diagnostics = self._component(scaled_state)
+            tendencies, diagnostics = dict(tendencies), dict(diagnostics)
             for tend_field in self._tendency_scale_factors.keys():
                 scale_factor = self._tendency_scale_factors[tend_field]
                 tendencies[tend_field] = scale_quantity(
@@ -174,6 +176,7 @@ class ScalingWrapper(object):
             if timestep is None:
                 raise TypeError('Must give timestep to call ImplicitTendencyComponent.')
             tendencies, diagnostics = self._component(scaled_state, timestep)
+            tendencies, diagnostics = dict(tendencies), dict(diagnostics)
             for tend_field in self._tendency_scale_factors.keys():
                 scale_factor = self._tendency_scale_factors[tend_field]
                 tendencies[tend_field] = scale_quantity(
@@ -183,7 +186,7 @@ class ScalingWrapper(object):
                 diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return tendencies, diagnostics
         elif isinstance(self._component, DiagnosticComponent):
-            diagnostics = self._component(scaled_state)
+            diagnostics = dict(self._component(scaled_state))
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
                 diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
-- 
2.43.0


From ef773a54e2c067b63be1763d4056826d1fc9235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:24 +0000
Subject: [PATCH 27/47] fix: AdamsBashforth and Leapfrog give correct results
 when units in the state change between steps

---
 sympl/_components/timesteppers.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index af66ef8..5990f89 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -141,6 +141,9 @@ class AdamsBashforth(TendencyStepper):
         state = state.copy()
         tendencies, diagnostics = self.prognostic(state, timestep)
         convert_tendencies_units_for_state(tendencies, state)
+        for old_tendencies in self._tendencies_list:
+            # the units of quantities in the state may differ between calls
+            convert_tendencies_units_for_state(old_tendencies, state)
         self._tendencies_list.append(tendencies)
         new_state = self._perform_step(state, timestep)
         copy_untouched_quantities(state, new_state)
@@ -186,6 +189,19 @@ def convert_tendencies_units_for_state(tendencies, state):
             tendencies[quantity_name] = tendencies[quantity_name].to_units(desired_units)
 
 
+def convert_units_for_state(old_state, state, names):
+    """
+    Converts the units of the named quantities in the old_state dictionary to
+    the units they have in the state dictionary, if both have unit information.
+    This is done in-place.
+    """
+    for name in names:
+        if all(isinstance(s[name], get_backend().get_container_type()) and
+               ('units' in s[name].attrs) for s in (old_state, state)):
+            old_state[name] = old_state[name].to_units(
+                state[name].attrs['units'])
+
+
 class Leapfrog(TendencyStepper):
     """A TendencyStepper using the Leapfrog scheme.
 
@@ -265,6 +281,8 @@ class Leapfrog(TendencyStepper):
         if self._old_state is None:
             new_state = step_forward_euler(state, tendencies, timestep)
         else:
+            convert_units_for_state(
+                self._old_state, state, names=tendencies.keys())
             state, new_state = step_leapfrog(
                 self._old_state, state, tendencies, timestep,
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
-- 
2.43.0


From 0dd1210404ba0fb598c57f229ba4ca5e23f96f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 28/47] fix: time steppers can put tendencies of quantities
 that components use as input in diagnostics

---
 sympl/_core/tendencystepper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 65950c7..a6ebaa2 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -82,6 +82,11 @@ class TendencyStepper(Stepper):
                 'dims': properties['dims'],
             }
 
+    def _insert_tendency_properties(self):
+        # diagnostic_properties already includes the tendencies, and units are
+        # converted when the tendencies are computed
+        return [self._get_tendency_name(name) for name in self.output_properties.keys()]
+
     @property
     def output_properties(self):
         output_properties = self._tendency_properties
-- 
2.43.0


From 891f2209235cc32e7ca5566a57598f29ead2011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:59 +0000
Subject: [PATCH 29/47] fix: wildcard dims of tracers are in the same order as
 those of other inputs

---
 sympl/_core/get_np_arrays.py | 13 +++++++++++--
 sympl/_core/tracers.py       | 20 ++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/get_np_arrays.py b/sympl/_core/get_np_arrays.py
index f494a32..b1c9a29 100644
--- a/sympl/_core/get_np_arrays.py
+++ b/sympl/_core/get_np_arrays.py
@@ -5,11 +5,20 @@ from .exceptions import InvalidStateError
 from .wildcard import flatten_wildcard_dims, get_wildcard_matches_and_dim_lengths
 
 
-def get_numpy_arrays_with_properties(state, property_dictionary):
+def get_numpy_arrays_with_properties(
+    state, property_dictionary, wildcard_properties=None
+):
+    """
+    Gets numpy arrays for the quantities in property_dictionary. If given,
+    wildcard_properties is the property dictionary used to determine which
+    dimensions match a wildcard, and otherwise property_dictionary is.
+    """
     out_dict = {}
     backend = get_backend()
+    if wildcard_properties is None:
+        wildcard_properties = property_dictionary
     wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
-        state, property_dictionary
+        state, wildcard_properties
     )
     #  Now we actually retrieve output arrays since we know the precise out dims
     for name, properties in property_dictionary.items():
diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index 3d2d864..46e1a77 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -173,6 +173,19 @@ class TracerPacker(object):
                 return_list.append(name)
         return tuple(return_list)
 
+    def _get_input_properties(self, tracer_properties):
+        """
+        Returns properties of both the inputs of the component and the tracers,
+        so that a wildcard matches the same dimensions in the same order for
+        tracers as it does for the other inputs of the component.
+        """
+        input_properties = {}
+        for name, properties in self.component.input_properties.items():
+            input_properties[name] = {
+                'dims': properties['dims'], 'units': properties['units']}
+        input_properties.update(tracer_properties)
+        return input_properties
+
     @property
     def _tracer_index(self):
         return self._tracer_dims.index('tracer')
@@ -190,7 +203,9 @@ class TracerPacker(object):
         """
         tracer_properties = get_tracer_input_properties(
             self._prepend_tracers, self._tracer_quantity_dims)
-        raw_state = get_numpy_arrays_with_properties(state, tracer_properties)
+        raw_state = get_numpy_arrays_with_properties(
+            state, tracer_properties,
+            wildcard_properties=self._get_input_properties(tracer_properties))
         if len(self.tracer_names) == 0:
             shape = [0 for dim in self._tracer_dims]
         else:
@@ -235,5 +250,6 @@ class TracerPacker(object):
                 out_properties[name]['units'] = '{} {}'.format(
                     out_properties[name]['units'], multiply_unit)
         return_state = restore_data_arrays_with_properties(
-            raw_state, out_properties, input_state, tracer_properties)
+            raw_state, out_properties, input_state,
+            self._get_input_properties(tracer_properties))
         return return_state
-- 
2.43.0


From 6b9e6bc110a96adebbc5eddb9041e8835c1e5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:45 +0000
Subject: [PATCH 30/47] fix: TimeDifferencingWrapper gives tendencies of
 tracers

---
 sympl/_components/basic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 0c627f4..9b25d20 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -4,6 +4,7 @@ from .._core.base_components import (
     ImplicitTendencyComponent,
     TendencyComponent,
 )
+from .._core.tracers import get_tracer_input_properties
 from .._core.units import unit_registry as ureg
 
 
@@ -411,9 +412,17 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
         diagnostics, new_state = self._implicit(state, timestep)
         tendencies = {}
         timestep_seconds = timestep.total_seconds()
+        output_properties = dict(self._implicit.output_properties)
+        if getattr(self._implicit, "uses_tracers", False):
+            output_properties.update(
+                get_tracer_input_properties(
+                    getattr(self._implicit, "prepend_tracers", None) or (),
+                    self._implicit.tracer_dims,
+                )
+            )
         for varname, data_array in new_state.items():
             if isinstance(data_array, get_backend().get_container_type()):
-                if varname in self._implicit.output_properties.keys():
+                if varname in output_properties.keys():
                     if varname not in state.keys():
                         raise RuntimeError(
                             "Cannot calculate tendency for {} because it is not"
@@ -427,7 +436,7 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
                     else:
                         tendency.attrs["units"] = data_array.attrs["units"] + " s^-1"
                     tendencies[varname] = tendency.to_units(
-                        self._implicit.output_properties[varname]["units"] + " s^-1"
+                        output_properties[varname]["units"] + " s^-1"
                     )
             elif varname != "time":
                 raise ValueError(
-- 
2.43.0


From 5d172dae0278e9f281caae9f7bd79c59f36f26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:54 +0000
Subject: [PATCH 31/47] fix: ScalingWrapper passes the timestep on when it
 wraps a wrapped ImplicitTendencyComponent

---
 sympl/_core/wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 8fe0a14..41ac6a9 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -161,7 +161,9 @@ class ScalingWrapper(object):
                 scale_factor = self._diagnostic_scale_factors[name]
                 diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return diagnostics, new_state
-        elif isinstance(self._component, TendencyComponent):
+        elif isinstance(self._component, TendencyComponent) and (
+                timestep is None or
+                not isinstance(self._component, ImplicitTendencyComponent)):
             tendencies, diagnostics = self._component(scaled_state)
             tendencies, diagnostics = dict(tendencies), dict(diagnostics)
             for tend_field in self._tendency_scale_factors.keys():
-- 
2.43.0


From 2c520fb6f0372d4337d499b6422e4a31add5d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 32/47] fix: degrees_north and degrees_east can be converted
 and compared with their other spellings

---
 sympl/_core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index cee1ce1..4facfce 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -14,8 +14,8 @@ class UnitRegistry(pint.UnitRegistry):
 
 
 unit_registry = UnitRegistry()
-unit_registry.define('degrees_north = degree_north = degree_N = degrees_N = degreeN = degreesN')
-unit_registry.define('degrees_east = degree_east = degree_E = degrees_E = degreeE = degreesE')
+unit_registry.define('degrees_north = degree = degree_north = degree_N = degrees_N = degreeN = degreesN')
+unit_registry.define('degrees_east = degree = degree_east = degree_E = degrees_E = degreeE = degreesE')
 unit_registry.define('percent = 0.01*count = %')
 
 
-- 
2.43.0


From f78a20042c257c95b88f2f64f9ac115b0e1773a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:36 +0000
Subject: [PATCH 33/47] fix: restore_data_arrays_with_properties with
 ignore_missing does not drop aliased quantities

---
 sympl/_core/restore_dataarray.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index de4dd5f..4bea5b7 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -96,11 +96,13 @@ def restore_data_arrays_with_properties(
     if ignore_names is None:
         ignore_names = []
     if ignore_missing:
-        ignore_names = (
-            set(output_properties.keys())
-            .difference(raw_arrays.keys())
-            .union(ignore_names)
+        missing_names = set(
+            name
+            for name in output_properties.keys()
+            if get_alias_or_name(name, output_properties, input_properties)
+            not in raw_arrays.keys()
         )
+        ignore_names = missing_names.union(ignore_names)
     wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
         input_state, input_properties
     )
-- 
2.43.0


From ba784a12f7fa7daf7ed36bd75c5d3767ce4855c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:55 +0000
Subject: [PATCH 34/47] fix: constant and relaxation components declare the
 tendencies they put in diagnostics

---
 sympl/_components/basic.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 9b25d20..d0e1b19 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -73,13 +73,7 @@ class ConstantTendencyComponent(TendencyComponent):
 
     @property
     def diagnostic_properties(self):
-        return_dict = {}
-        for name, data_array in self.__diagnostics.items():
-            return_dict[name] = {
-                "dims": data_array.dims,
-                "units": data_array.attrs["units"],
-            }
-        return return_dict
+        return self.__diagnostic_properties
 
     def __init__(self, tendencies, diagnostics=None, **kwargs):
         """
@@ -123,6 +117,13 @@ class ConstantTendencyComponent(TendencyComponent):
             self.__diagnostics = diagnostics.copy()
         else:
             self.__diagnostics = {}
+        # kept, as tendencies may be added to it
+        self.__diagnostic_properties = {}
+        for name, data_array in self.__diagnostics.items():
+            self.__diagnostic_properties[name] = {
+                "dims": data_array.dims,
+                "units": data_array.attrs["units"],
+            }
         super(ConstantTendencyComponent, self).__init__(**kwargs)
 
     def array_call(self, state):
@@ -292,7 +293,7 @@ class RelaxationTendencyComponent(TendencyComponent):
 
     @property
     def diagnostic_properties(self):
-        return {}
+        return self._diagnostic_properties
 
     def __init__(self, quantity_name, units, **kwargs):
         """
@@ -324,6 +325,7 @@ class RelaxationTendencyComponent(TendencyComponent):
         """
         self._quantity_name = quantity_name
         self._units = units
+        self._diagnostic_properties = {}  # tendencies may be added to it
         super(RelaxationTendencyComponent, self).__init__(**kwargs)
 
     def array_call(self, state):
-- 
2.43.0


From 0d8404156b597a19dfe493ace3772520a0de1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:24 +0000
Subject: [PATCH 35/47] fix: composites can combine components which use the
 same alias for different quantities

---
 sympl/_core/combine_properties.py | 2 ++
 sympl/_core/composite.py          | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index d866132..fc46a78 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -79,6 +79,8 @@ def combine_properties(property_list, input_properties=None):
             if name not in return_dict:
                 return_dict[name] = {}
                 return_dict[name].update(properties)
+                # aliases are for the arrays of one component, others may use them
+                return_dict[name].pop('alias', None)
                 if 'dims' not in properties.keys():
                     if name in input_properties.keys() and 'dims' in input_properties[name].keys():
                         return_dict[name]['dims'] = input_properties[name]['dims']
diff --git a/sympl/_core/composite.py b/sympl/_core/composite.py
index 383a8fb..9948430 100644
--- a/sympl/_core/composite.py
+++ b/sympl/_core/composite.py
@@ -31,6 +31,9 @@ class DiagnosticPropertiesCompositeMixin(object):
             ensure_no_shared_keys(component.diagnostic_properties, return_dict)
             return_dict.update(component.diagnostic_properties)
         for name, properties in return_dict.items():
+            # aliases are for the arrays of one component
+            return_dict[name] = {
+                key: value for key, value in properties.items() if key != 'alias'}
             if 'dims' not in properties.keys() and not (name in self.input_properties):
                 raise InvalidPropertyDictError(
                     'Must define dims for diagnostic output {}'.format(name))
-- 
2.43.0


From f15865b75d15f91179cf5565e6a790bcb52694a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:24 +0000
Subject: [PATCH 36/47] fix: str of time steppers

---
 sympl/_core/tendencystepper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index a6ebaa2..e0bf7b9 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -107,7 +107,8 @@ class TendencyStepper(Stepper):
     def __str__(self):
         return (
             'instance of {}(TendencyStepper)\n'
-            '    TendencyComponent components: {}'.format(self.prognostic_list)
+            '    TendencyComponent components: {}'.format(
+                self.__class__, self.prognostic_list)
         )
 
     def __repr__(self):
-- 
2.43.0


From 719d7a2e619f35bf3ba669a46546256a461ba65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 37/47] fix: wrappers can be copied and pickled

---
 sympl/_components/basic.py | 2 +-
 sympl/_core/wrappers.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index d0e1b19..1004e62 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -453,7 +453,7 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
         raise NotImplementedError()
 
     def __getattr__(self, item):
-        if item in ("outputs", "output_properties"):
+        if item in ("outputs", "output_properties", "_implicit"):
             raise AttributeError()
         else:
             return getattr(self._implicit, item)
diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 41ac6a9..7ec5fde 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -123,6 +123,8 @@ class ScalingWrapper(object):
                     ", but was given a scale factor.".format(field, properties_name))
 
     def __getattr__(self, item):
+        if item == '_component':  # not set yet, as when copying or unpickling
+            raise AttributeError(item)
         return getattr(self._component, item)
 
     def __call__(self, state, timestep=None):
@@ -262,4 +264,6 @@ class UpdateFrequencyWrapper(object):
         return self._cached_output
 
     def __getattr__(self, item):
+        if item == 'component':  # not set yet, as when copying or unpickling
+            raise AttributeError(item)
         return getattr(self.component, item)
-- 
2.43.0


From 3c88e03df239501b4cf3617c9f951ec252d069a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:32 +0000
Subject: [PATCH 38/47] fix: an alias which is the name of another quantity, or
 its input alias, is refused as a clash

---
 sympl/_core/base_components.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 1d40ed7..9056452 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -105,18 +105,16 @@ class ComponentMeta(abc.ABCMeta):
         return required_attributes, disallowed_attributes
 
 
-def check_overlapping_aliases(properties, properties_name):
-    defined_aliases = set()
-    for name, properties in properties.items():
-        if 'alias' in properties.keys():
-            if properties['alias'] not in defined_aliases:
-                defined_aliases.add(properties['alias'])
-            else:
-                raise InvalidPropertyDictError(
-                    'Multiple quantities map to alias {} in {} '
-                    'properties'.format(
-                        properties['alias'], properties_name)
-                )
+def check_overlapping_aliases(properties, properties_name, input_properties):
+    used_names = set()
+    for name in properties.keys():
+        raw_name = get_alias_or_name(name, properties, input_properties)
+        if raw_name in used_names:
+            raise InvalidPropertyDictError(
+                'Multiple quantities map to alias {} in {} '
+                'properties'.format(raw_name, properties_name)
+            )
+        used_names.add(raw_name)
 
 
 class InputChecker(object):
@@ -143,7 +141,8 @@ class InputChecker(object):
                 raise InvalidPropertyDictError(
                     'Input properties do not have dims defined for {}'.format(name)
                 )
-        check_overlapping_aliases(self.component.input_properties, 'input')
+        check_overlapping_aliases(
+            self.component.input_properties, 'input', self.component.input_properties)
         super(InputChecker, self).__init__()
 
     def check_inputs(self, state):
@@ -206,7 +205,8 @@ class TendencyChecker(object):
                 raise InvalidPropertyDictError(
                     'Tendency properties do not have dims defined for {}'.format(name)
                 )
-        check_overlapping_aliases(self.component.tendency_properties, 'tendency')
+        check_overlapping_aliases(
+            self.component.tendency_properties, 'tendency', self.component.input_properties)
         incompatible_name = get_tendency_name_with_incompatible_units(
             self.component.input_properties, self.component.tendency_properties)
         if incompatible_name is not None:
@@ -292,7 +292,8 @@ class DiagnosticChecker(object):
                     type(self.component), incompatible_name,
                     self.component.diagnostic_properties[incompatible_name]['units'],
                     self.component.input_properties[incompatible_name]['units']))
-        check_overlapping_aliases(component.diagnostic_properties, 'diagnostic')
+        check_overlapping_aliases(
+            component.diagnostic_properties, 'diagnostic', component.input_properties)
 
     @property
     def _wanted_diagnostic_aliases(self):
@@ -363,7 +364,8 @@ class OutputChecker(object):
                 raise InvalidPropertyDictError(
                     'Output properties do not have dims defined for {}'.format(name)
                 )
-        check_overlapping_aliases(self.component.output_properties, 'output')
+        check_overlapping_aliases(
+            self.component.output_properties, 'output', self.component.input_properties)
         incompatible_name = get_name_with_incompatible_units(
             self.component.input_properties, self.component.output_properties)
         if incompatible_name is not None:
-- 
2.43.0


From 5baa3cb6da618f70fe8a0b76fa9f4285d62851cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 39/47] fix: NetCDFMonitor refuses quantities whose shape is
 not the one in the file

A length 1 dimension was broadcast to the length in the file, and other lengths
raised only after the time of the refused state had been appended.
---
 sympl/_components/netcdf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index b471c76..9c430fd 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -326,6 +326,12 @@ def combine_states(states):
                     'vs. {}'.format(
                         name, return_dict[name].attrs.get('units'),
                         state[name].attrs.get('units')))
+            if dict(state[name].sizes) != dict(states[0][name].sizes):
+                raise InvalidStateError(
+                    'Quantity {} has different dimensions at different times: '
+                    '{} vs. {}'.format(
+                        name, dict(states[0][name].sizes),
+                        dict(state[name].sizes)))
             return_dict[name][i] = state[name]
     return return_dict
 
@@ -373,6 +379,10 @@ def ensure_variable_is_compatible(variable, name, data):
         raise IOError(
             'Dimension in file is {} but on variable is {}'.format(
                 variable.dimensions, data.dims))
+    if variable.shape[1:] != data.shape[1:]:  # first dimension is time
+        raise IOError(
+            'Quantity {} has shape {} in file but shape {} is given'.format(
+                name, variable.shape[1:], data.shape[1:]))
     for key, value in data.attrs.items():
         if key not in variable.ncattrs():
             raise InvalidStateError(
-- 
2.43.0


From 039ae858c05b2a7b7998d4b09cffc4ee6d1dc471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 40/47] fix: components without prepended tracers
 (prepend_tracers = None) can be combined

---
 sympl/_core/combine_properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index fc46a78..d58682f 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -66,7 +66,8 @@ def combine_component_properties(component_list, property_name, input_properties
                     "tracer number"
                 )
             tracer_dims.remove('tracer')
-            property_list.append(get_tracer_input_properties(getattr(component, 'prepend_tracers', ()), tracer_dims))
+            property_list.append(get_tracer_input_properties(
+                getattr(component, 'prepend_tracers', None) or (), tracer_dims))
     return combine_properties(property_list, input_properties)
 
 
-- 
2.43.0


From 8c668d99d1280050d0f0264b8852690d55a11b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 41/47] fix: converting units of integers does not wrap around
 (int32 days to seconds)

---
 sympl/_core/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index 4facfce..d544053 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -80,6 +80,8 @@ def data_array_to_units(value, units):
             'Cannot retrieve units from type {}'.format(type(value)))
     elif unit_registry(value.attrs['units']) != unit_registry(units):
         attrs = value.attrs.copy()
+        if value.dtype.kind in 'iub':  # would wrap around in the conversion
+            value = value.copy(data=value.values.astype(float))
         value = unit_registry.Quantity(value, value.attrs['units']).to(units).magnitude
         attrs['units'] = units
         value.attrs = attrs
-- 
2.43.0


From 9b77135b5d90529e40c8fcf549da8a70e72d2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:04 +0000
Subject: [PATCH 42/47] fix: NetCDFMonitor can append to a file quantities
 which have lists, arrays or NaN as attributes

---
 sympl/_components/netcdf.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 9c430fd..7a7aaae 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -388,7 +388,7 @@ def ensure_variable_is_compatible(variable, name, data):
             raise InvalidStateError(
                 'State has attr {} for quantity {} but this is not '
                 'present in the netCDF file'.format(key, name))
-        elif value != variable.getncattr(key):
+        elif not attributes_are_equal(value, variable.getncattr(key)):
             raise InvalidStateError(
                 'State has attr {} with value {} for quantity {} but '
                 'the value in the netCDF file is {}'.format(
@@ -396,6 +396,16 @@ def ensure_variable_is_compatible(variable, name, data):
                     variable.getncattr(key)))
 
 
+def attributes_are_equal(first, second):
+    """Whether two attribute values are the same, as numbers, strings or sequences
+    of them, for which NetCDF may return another type than was written."""
+    first, second = np.atleast_1d(first), np.atleast_1d(second)
+    if first.shape != second.shape:
+        return False
+    both_nan = (first != first) & (second != second)
+    return bool(np.all((first == second) | both_nan))
+
+
 def ensure_dimension_exists(dataset, dim_name, dim_length):
     if dim_name in dataset.dimensions:
         if dim_length is None:
-- 
2.43.0


From 7c9dcde895d4db868773a8e1b61c2d6ccef26aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:16 +0000
Subject: [PATCH 43/47] fix: RestartMonitor restores quantities with attributes
 scale_factor or add_offset

---
 sympl/_components/netcdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 7a7aaae..3534407 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -20,6 +20,9 @@ class NetCDFMonitor(Monitor):
     """A Monitor which caches stored states and then writes them to a
     NetCDF file when requested."""
 
+    # whether attributes scale_factor and add_offset say how values are packed
+    _auto_scale = True
+
     def __init__(
             self, filename, time_units='seconds', store_names=None,
             write_on_store=False, aliases=None):
@@ -190,6 +193,7 @@ class NetCDFMonitor(Monitor):
             all_states = combine_states(state_list)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
+            dataset.set_auto_scale(self._auto_scale)
             append_times_to_dataset(time_list, dataset, self._time_units)
             for name, value in all_states.items():
                 dataset.variables[name][it_start:it_end] = value.values
@@ -240,6 +244,7 @@ class RestartMonitor(Monitor):
             raise IOError('Filename {} already exists'.format(new_filename))
         netcdf_monitor = NetCDFMonitor(new_filename, time_units='microseconds')
         netcdf_monitor.store(state)
+        netcdf_monitor._auto_scale = False  # as in load
         netcdf_monitor.write()
 
         if os.path.isfile(self._filename):
-- 
2.43.0


From c352371921d2310ccfd6f5cf5598e16ab1e8f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 44/47] fix: Stepper can give tendencies when dims are a list
 for input and a tuple for output

---
 sympl/_core/base_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 9056452..703fd5b 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -553,7 +553,7 @@ class Stepper(object):
                     'dims': dims,
                     'units': properties['units'],
                 }
-            elif self.input_properties[name]['dims'] != dims:
+            elif tuple(self.input_properties[name]['dims']) != tuple(dims):
                 raise InvalidPropertyDictError(
                     'Can only calculate tendencies when input and output values'
                     ' have the same dimensions, but dims for {} are '
-- 
2.43.0


From a47022bb68838b414feade4f5041a0b87a9be62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 45/47] fix: Stepper can give tendencies when input and output
 units are spelled differently

---
 sympl/_core/base_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 703fd5b..fe3e158 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -7,7 +7,7 @@ from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
     ComponentMissingOutputError, InvalidStateError)
 from six import add_metaclass
-from .units import units_are_compatible
+from .units import units_are_compatible, units_are_same
 from .tracers import TracerPacker
 try:
     from inspect import getfullargspec as getargspec
@@ -562,7 +562,8 @@ class Stepper(object):
                         self.output_properties[name]['dims']
                     )
                 )
-            elif self.input_properties[name]['units'] != self.output_properties[name]['units']:
+            elif not units_are_same(
+                    self.input_properties[name]['units'], self.output_properties[name]['units']):
                 raise InvalidPropertyDictError(
                     'Can only calculate tendencies when input and output values'
                     ' have the same units, but units for {} are '
-- 
2.43.0


From a547cd60554d84ad1dde18e44baadc0a1cbcb8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 46/47] fix: jit without numba accepts signatures

---
 sympl/_core/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 4d5cd8a..0a0f216 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -11,10 +11,10 @@ try:
 except ImportError:
     # define a function with the same call signature as jit that does nothing
     def jit(signature_or_function=None, **kwargs):
-        if signature_or_function is None:
-            return lambda x: x
-        else:
+        if callable(signature_or_function):
             return signature_or_function
+        else:
+            return lambda x: x
 
 # internal exceptions used only within this module
 
-- 
2.43.0


From 24f0cd8091b00aafa2db8cf6553cdbe9f685bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 47/47] fix: composites do not lose the precision of tendencies
 when adding them to less precise ones

---
 sympl/_core/util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 0a0f216..3414496 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -211,12 +211,16 @@ def update_dict_by_adding_another(dict1, dict2):
                 if 'units' not in dict1[key].attrs or 'units' not in dict2[key].attrs:
                     raise InvalidStateError(
                         'quantity objects must have units property defined')
+                added = dict2[key].to_units(dict1[key].attrs['units'])
+                fits = np.can_cast(added.dtype, dict1[key].dtype)
                 try:
-                    dict1[key] += dict2[key].to_units(dict1[key].attrs['units'])
-                # ValueError if dict1[key] is missing a dimension present in dict2[key]
-                # TypeError if dict1[key] cannot hold the type of the sum
-                except (ValueError, TypeError):
-                    dict1[key] = dict1[key] + dict2[key].to_units(dict1[key].attrs['units'])
+                    if fits:
+                        dict1[key] += added
+                    else:  # the sum would lose precision in place
+                        dict1[key] = dict1[key] + added
+                # raised if dict1[key] is missing a dimension present in dict2[key]
+                except ValueError:
+                    dict1[key] = dict1[key] + added
             else:
                 dict1[key] += dict2[key]  # += is in-place addition operator
     return  # not returning anything emphasizes that this is in-place
-- 
2.43.0

