From 2dcb22a1cabd6f1385f0618a21b4d66ded491cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 01/30] fix: make BalloonState importable on Python >= 3.11
 (mutable dataclass defaults)

---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
-- 
2.43.0


From 89c883567f869cc24674da5348fbd530b00cac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 02/30] fix: make the VAE modules importable on Python >= 3.11
 (mutable dataclass defaults)

---
 balloon_learning_environment/generative/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..6d08c3b 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -135,7 +135,7 @@ class Decoder(nn.Module):
   """A decoder network for a variational autoencoder."""
   num_hidden_layers: int = 3
   hidden_layer_network_width: int = 1000
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   @nn.compact
   def __call__(self, z: jnp.ndarray) -> jnp.ndarray:
@@ -191,7 +191,7 @@ class WindFieldVAE(nn.Module):
   """Class that learns a VAE to generate wind fields."""
   num_latents: int = 64
   reparameterize_latents: bool = True
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-- 
2.43.0


From 268be96e94b6a632d7ad5afe30f14f90a21eb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 03/30] fix: solar_calculator rejects an invalid LatLng
 (is_valid was never called)

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From 193a8e6d73d6f536846e17506d96e03735807c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 04/30] fix: solar_calculator uses the UTC calendar day for any
 timezone

---
 balloon_learning_environment/env/balloon/solar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..349f132 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -61,6 +61,8 @@ def solar_calculator(latlng: s2.LatLng,
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
+  # The calendar day below must be the UTC day, as fraction_of_day is.
+  time = time.astimezone(dt.timezone.utc)
 
   # Compute fraction_of_day from time.
   fraction_of_day = (
-- 
2.43.0


From 76a3adb8fe60545bfe9eb6f3ec36d0638de8a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 05/30] fix: undo_squash_to_unit_interval rejects values
 outside [0, 1)

---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From f1de0d5b9224386df05471a0655f3b1ce80fb9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:29 +0000
Subject: [PATCH 06/30] fix: NamedPerciatelliFeatures.wind_at rejects invalid
 levels

---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0


From c21efe3f124b90fc4984849dc533359b0cea9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 07/30] fix: load_perciatelli44 raises the documented
 RuntimeError when the model is missing

---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From badb9f6642374ca0baf2154ef7b9467aac3a785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 08/30] fix: MatplotlibRenderer renders frames with matplotlib
 >= 3.10

---
 .../env/rendering/matplotlib_renderer.py                    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..f88f889 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,8 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      # tostring_rgb was removed in matplotlib 3.10.
+      frame = np.array(self._fig.canvas.buffer_rgba())[:, :, :3]
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From c374ea12664ea154dabee5a469c251a99819f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 09/30] fix: combine_eval_shards only merges the shards of the
 named model

---
 balloon_learning_environment/eval/combine_eval_shards.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..1d1e69a 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -20,6 +20,7 @@ r"""Combines sharded eval results into a single json file.
 import glob
 import json
 import os
+import re
 from typing import Sequence
 
 from absl import app
@@ -45,7 +46,11 @@ def main(argv: Sequence[str]) -> None:
   for model in FLAGS.models:
     data = list()
 
+    shard_name = re.compile(re.escape(model) + r'_\d+\.json')
     for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+      # Other models may share the prefix, e.g. random and random_walk.
+      if not shard_name.fullmatch(os.path.basename(path)):
+        continue
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From 4326e050002a9cb47ace3ea7bb69f380605ee74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 10/30] fix: the training loop passes each reward to the agent
 once

---
 balloon_learning_environment/train_lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index 768b3c0..ca295c0 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -67,8 +67,10 @@ def _run_one_episode(env: balloon_env.BalloonEnv,
       final_episode_step = i + 1
       break
 
-    # Pass observation to agent, request new action.
-    a = agent.step(r, obs)
+    # Pass observation to agent, request new action. The reward of the last
+    # step is passed to the agent by end_episode instead.
+    if i + 1 < max_episode_length:
+      a = agent.step(r, obs)
 
   # The environment has no timeout, so terminal really is a terminal state.
   agent.end_episode(r, terminal)
-- 
2.43.0


From 4aec261bfede17690900ea30440304773b522894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 11/30] fix: Energy.__ge__ raises on incomparable types like
 __gt__ does

---
 balloon_learning_environment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index d923a96..7858d5e 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -249,7 +249,7 @@ class Energy(object):
     if isinstance(other, Energy):
       return self.watt_hours >= other.watt_hours
     else:
-      return ValueError(f'Cannot compare Energy and {type(other)}')
+      raise ValueError(f'Cannot compare Energy and {type(other)}')
 
 
 class Power(object):
-- 
2.43.0


From 11b8a2ec67465e3b2e2a33447ef4c1066153ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:01 +0000
Subject: [PATCH 12/30] fix: locate sunrise and sunset by the elevation
 crossing

The search assumed that the distance to the target elevation is symmetric
around the crossing, which it is not; sunrise and sunset were off by up to an
hour (or a whole day), instead of the documented three minute resolution.
---
 .../env/balloon/solar.py                      | 54 +++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 349f132..3d4fde3 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -286,13 +286,59 @@ def _find_solar_elevation(
         latlng, min_time, max_time, operator.neg, time_delta)
   else:
     try:
-      # Turn the numerical value into an absolute loss function.
       target_numeric = float(target)
-      return _find_solar_elevation_binary_search(
-          latlng, min_time, max_time,
-          lambda x: abs(x - target_numeric), time_delta)
     except ValueError:
       raise ValueError('Unknown target type: {}'.format(target))
+    return _find_solar_elevation_crossing(
+        latlng, min_time, max_time, target_numeric, time_delta)
+
+
+def _find_solar_elevation_crossing(
+    latlng: s2.LatLng,
+    min_time: dt.datetime,
+    max_time: dt.datetime,
+    target: float,
+    time_delta=_SEARCH_TIME_DELTA) -> Tuple[dt.datetime, float]:
+  """Finds when the sun crosses an elevation in the given time interval.
+
+  The solar elevation must be monotonic on the interval (i.e., the interval lies
+  between a solar midnight and a solar noon). Unlike the distance to its minimum
+  or maximum, the distance to an arbitrary elevation isn't symmetric around the
+  crossing, so _find_solar_elevation_binary_search can't be used for this.
+
+  Args:
+    latlng: Latitude/longitude at which to calculate.
+    min_time: Earliest time in the time interval to consider.
+    max_time: Latest time in the time interval to consider.
+    target: The solar elevation to be located.
+    time_delta: Resolution of search process.
+
+  Returns:
+    time: time at which the sun is at the target elevation.
+    elevation: solar elevation at that time.
+  """
+  if max_time < min_time:
+    raise ValueError('Time interval must have positive extent.')
+
+  max_steps = int((max_time - min_time) / time_delta)
+  assert max_steps > 0
+
+  def _elevation(idx: int) -> float:
+    return solar_calculator(latlng, min_time + time_delta * idx)[0]
+
+  low = 0
+  high = max_steps
+  starts_above_target = _elevation(low) > target
+  while high > low + 1:
+    midpoint = (low + high) // 2
+    if (_elevation(midpoint) > target) == starts_above_target:
+      low = midpoint
+    else:
+      high = midpoint
+
+  # The sun crosses the target between low and high. Pick the closest one.
+  index = min(low, high, key=lambda idx: abs(_elevation(idx) - target))
+  return min_time + time_delta * index, _elevation(index)
 
 
 def _find_solar_elevation_binary_search(
-- 
2.43.0


From 149dbbdf52ccc2879da944b73b3a008e75c43646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 13/30] fix: read the fan efficiency table by power and
 pressure ratio

The table has one row of 13 pressure ratios per power, but interp2d reads a flat
array with the power varying fastest, so most efficiencies were looked up at the
wrong operating point (e.g., 0 for every power at a pressure ratio of 1.1).
---
 balloon_learning_environment/env/balloon/acs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/acs.py b/balloon_learning_environment/env/balloon/acs.py
index ff9f513..eae7d59 100644
--- a/balloon_learning_environment/env/balloon/acs.py
+++ b/balloon_learning_environment/env/balloon/acs.py
@@ -37,7 +37,7 @@ _PRESSURE_RATIO_POWER_TO_EFFICIENCY: interpolate.interp2d = (
                   0.23, 0.20, 0.15, 0.12, 0.10, 0.00000, 0.00000, 0.00000,
                   0.00000, 0.3, 0.25, 0.25, 0.25, 0.20, 0.20, 0.20, 0.2, 0.15,
                   0.13, 0.12, 0.11, 0.00000, 0.23, 0.23, 0.23, 0.23, 0.23, 0.20,
-                  0.20, 0.20, 0.18, 0.16, 0.15, 0.13]),  # efficiency
+                  0.20, 0.20, 0.18, 0.16, 0.15, 0.13]).reshape(4, 13),  # efficiency
         fill_value=None))
 
 
-- 
2.43.0


From 8f485472cadf1da690f0f4dbed0102b03401c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:34 +0000
Subject: [PATCH 14/30] fix: WindGP falls back on the forecast without fresh
 observations

Queries more than six hours away from all observations raised from scikit-learn,
and a WindGP that had seen nothing claimed to be perfectly certain.
---
 balloon_learning_environment/env/wind_gp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..5409420 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -158,10 +158,11 @@ class WindGP(object):
     # Set up data for the GP.
     # TODO(bellemare): Clearly wasteful if performing multiple queries per
     # observation. Should cache. Premature optimization is the root, etc.
-    if not self.measurement_locations:
-      means = np.zeros((locations.shape[0], 2))
-      deviations = np.zeros(locations.shape[0])
-    else:
+    # Without any observations there is no error to predict, and the uncertainty
+    # is that of the prior.
+    means = np.zeros((locations.shape[0], 2))
+    deviations = np.ones(locations.shape[0])
+    if self.measurement_locations:
       if len(self.measurement_locations) == 1:
         # Needed because hstack will leave the dims unchanged with a single
         # row.
@@ -183,6 +184,9 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
+      if not inputs.shape[0]:
+        self._add_forecast_to_prediction(locations, means)
+        return means, deviations
       self.model.fit(inputs, targets)
 
       # Output should be a N x 2 set of predictions about local measurements,
-- 
2.43.0


From 4e678173d5b193a08ac79f07d5dc0c11a2c78bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 15/30] fix: only numbered files count as checkpoints

A file like checkpoint_backup.pkl beside the checkpoints made
get_latest_checkpoint return -1, so that training silently restarted from
scratch, and checkpoint_final.pkl made clean_up_old_checkpoints raise.
Checkpoints with more than five digits were never cleaned up.
---
 .../agents/dopamine_utils.py                      | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..a718200 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -18,6 +18,7 @@
 import os.path as osp
 import pathlib
 import pickle
+import re
 from typing import Any, Dict, Callable
 
 from absl import logging
@@ -30,15 +31,8 @@ def _make_checkpoint_filename(checkpoint_dir: str,
 
 
 def _is_checkpoint_name(file_name: str) -> bool:
-  path = pathlib.Path(file_name)
-  if path.suffix != '.pkl':
-    return False
-
-  parts = path.stem.split('_')
-  if len(parts) != 2:
-    return False
-
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  return re.fullmatch(r'checkpoint_\d{5,}\.pkl',
+                      osp.basename(file_name)) is not None
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
@@ -98,7 +92,8 @@ def get_latest_checkpoint(checkpoint_dir: str) -> int:
     return -1
 
   try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files)
+    latest_episode = max(extract_episode(x) for x in checkpoint_files
+                         if _is_checkpoint_name(x))
   except ValueError:
     return -1
   return latest_episode
-- 
2.43.0


From 1adfd7e6215604762d9bb0c7c66dcd717b3abac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:55 +0000
Subject: [PATCH 16/30] fix: find checkpoints in directories with glob
 characters

---
 balloon_learning_environment/agents/dopamine_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index a718200..ba6cf6b 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -81,12 +81,12 @@ def load_checkpoint(
 
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
-  glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
   def extract_episode(x):
     return int(x[x.rfind('checkpoint_') + 11:-4])
 
   try:
-    checkpoint_files = tf.io.gfile.glob(glob)
+    # Note: glob would misread special characters in checkpoint_dir.
+    checkpoint_files = tf.io.gfile.listdir(checkpoint_dir)
   except tf.errors.NotFoundError:
     logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
     return -1
-- 
2.43.0


From df6f1555f07d5bf7905afaef3215875254b3e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:08 +0000
Subject: [PATCH 17/30] fix: combine shards of paths and names with glob
 characters

---
 balloon_learning_environment/eval/combine_eval_shards.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 1d1e69a..bdc044f 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -47,7 +47,8 @@ def main(argv: Sequence[str]) -> None:
     data = list()
 
     shard_name = re.compile(re.escape(model) + r'_\d+\.json')
-    for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+    for path in glob.glob(
+        glob.escape(os.path.join(FLAGS.path, model)) + '_*.json'):
       # Other models may share the prefix, e.g. random and random_walk.
       if not shard_name.fullmatch(os.path.basename(path)):
         continue
-- 
2.43.0


From 4affd72db3dd049af8cfd6fbc45a7fb10a1d40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:00 +0000
Subject: [PATCH 18/30] fix: each Perciatelli model has its own graph

---
 balloon_learning_environment/agents/perciatelli44.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/agents/perciatelli44.py b/balloon_learning_environment/agents/perciatelli44.py
index a4654e0..5c7341a 100644
--- a/balloon_learning_environment/agents/perciatelli44.py
+++ b/balloon_learning_environment/agents/perciatelli44.py
@@ -26,12 +26,15 @@ import tensorflow as tf
 def load_perciatelli_session() -> tf.compat.v1.Session:
   serialized_perciatelli = models.load_perciatelli44()
 
-  sess = tf.compat.v1.Session()
   graph_def = tf.compat.v1.GraphDef()
   graph_def.ParseFromString(serialized_perciatelli)
 
-  tf.compat.v1.import_graph_def(graph_def)
-  return sess
+  # Every session has its own graph: in a shared one, the names of all models
+  # but the first would be changed to make them unique.
+  graph = tf.Graph()
+  with graph.as_default():
+    tf.compat.v1.import_graph_def(graph_def, name='')
+  return tf.compat.v1.Session(graph=graph)
 
 
 class Perciatelli44(agent.Agent):
-- 
2.43.0


From 76df077cf5645f352715f1f482cf4fea383ad3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:29 +0000
Subject: [PATCH 19/30] fix: WindFieldVAE decodes fields of its own shape

---
 balloon_learning_environment/generative/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index 6d08c3b..578fb2a 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -195,7 +195,7 @@ class WindFieldVAE(nn.Module):
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-    self.decoder = Decoder()
+    self.decoder = Decoder(field_shape=self.field_shape)
     self.sigma = self.variable('params', 'sigma', lambda: 1.)
 
   def __call__(self, x: jnp.ndarray, z_rng: jnp.ndarray) -> VAEOutput:
-- 
2.43.0


From 3893179520ab9ba3b6b8b8cf6c846de927cdd9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:29 +0000
Subject: [PATCH 20/30] fix: an evaluation batch of size 0 is empty

---
 .../generative/dataset_wind_field_reservoir.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
index e1a6b52..f97ea65 100644
--- a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
+++ b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
@@ -78,4 +78,4 @@ class DatasetWindFieldReservoir(wind_field_reservoir.WindFieldReservoir):
       vae.py).
     """
 
-    return self.dataset[-self.eval_batch_size:, ...]
+    return self.dataset[self.dataset.shape[0] - self.eval_batch_size:, ...]
-- 
2.43.0


From 3f85efed54ef6310d24dfe2e0597eb77913aa06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:00 +0000
Subject: [PATCH 21/30] fix: an unreadable model path raises the documented
 ValueError

---
 balloon_learning_environment/models/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index 3dede13..46758f6 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -57,7 +57,7 @@ def load_offlineskies22(path: Optional[str] = None) -> bytes:
     try:
       with tf.io.gfile.GFile(path, 'rb') as f:
         return f.read()
-    except tf.errors.NotFoundError:
+    except tf.errors.OpError:
       raise ValueError(f'offlineskies22 checkpoint not found at {path}')
 
   # Attempt 2: Load from location expected in the built wheel.
@@ -107,7 +107,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
     try:
       with tf.io.gfile.GFile(path, 'rb') as f:
         return f.read()
-    except tf.errors.NotFoundError:
+    except tf.errors.OpError:
       raise ValueError(f'perciatelli44 checkpoint not found at {path}')
 
   # Attempt 2: Load from location expected in the built wheel.
-- 
2.43.0


From 07f901a7b176554afef89459e42721ad433459af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:00 +0000
Subject: [PATCH 22/30] fix: training ends normally when all iterations are
 already done

---
 balloon_learning_environment/train.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/train.py b/balloon_learning_environment/train.py
index 9dc86ff..9b4d56e 100644
--- a/balloon_learning_environment/train.py
+++ b/balloon_learning_environment/train.py
@@ -104,7 +104,10 @@ def main(_) -> None:
 
   if FLAGS.base_dir is not None:
     image_save_path = osp.join(FLAGS.base_dir, 'balloon_path.png')
-    img = env.render(mode='rgb_array')
+    try:
+      img = env.render(mode='rgb_array')
+    except gym.error.ResetNeeded:  # There were no episodes left to fly.
+      img = None
     if isinstance(img, np.ndarray):
       matplotlib.image.imsave(image_save_path, img)
 
-- 
2.43.0


From 1329b8df5645476351fd8a622cff1fa5c84e3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 23/30] fix: wind field training stops on undefined names after
 its first epoch

---
 .../generative/learn_wind_field_generator.py                  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index bce2a3e..4a6d57c 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -286,10 +286,6 @@ def train(num_batches_per_epoch: int = 200,
     avg_batch_wind_speed = jnp.array(batch_wind_speeds).mean()
     avg_sigma = jnp.array(sigma).mean()
 
-    mse_series.create_measurement(metrics['mse'], epoch)
-    kld_series.create_measurement(metrics['kld'], epoch)
-    loss_series.create_measurement(avg_training_loss, epoch)
-
     logging.info(
         'epoch: %d, mse: %.4f, kld: %.4f, train loss: %.4f, sigma: %.4f', epoch,
         metrics['mse'], metrics['kld'], avg_training_loss, avg_sigma)
-- 
2.43.0


From 685be2e78738cc4f432c9ddcdb1c7473b082a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 24/30] fix: average sigma over the epoch's batches, as the
 other metrics

---
 .../generative/learn_wind_field_generator.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index 4a6d57c..a0f5b64 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -284,7 +284,7 @@ def train(num_batches_per_epoch: int = 200,
     avg_mse_loss = jnp.array(mses).mean()
     avg_kld_loss = jnp.array(klds).mean()
     avg_batch_wind_speed = jnp.array(batch_wind_speeds).mean()
-    avg_sigma = jnp.array(sigma).mean()
+    avg_sigma = jnp.array(sigmas).mean()
 
     logging.info(
         'epoch: %d, mse: %.4f, kld: %.4f, train loss: %.4f, sigma: %.4f', epoch,
-- 
2.43.0


From caec6d831255df3496c1f9dedae35b4b54495df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 25/30] fix: train for num_epochs epochs, not one fewer

---
 .../generative/learn_wind_field_generator.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index a0f5b64..a403c55 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -258,7 +258,7 @@ def train(num_batches_per_epoch: int = 200,
   else:
     summary_writer = None
 
-  for epoch in range(epoch, int(num_epochs)):
+  for epoch in range(epoch, int(num_epochs) + 1):
     kl_coefficient = kl_schedule(epoch)
     losses = []
     mses = []
-- 
2.43.0


From e6b2063d9849b4fe89f16d076d10a9e113322ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 26/30] fix: simulate fractional durations and strides exactly
 or refuse them

---
 balloon_learning_environment/env/balloon/balloon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 5192aca..fe3eb39 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -322,13 +322,11 @@ class Balloon:
     effective_action = self.state.altitude_safety_layer.get_action(
         effective_action, atmosphere, self.state.pressure)
 
-    outer_stride = int(time_delta.total_seconds())
-    inner_stride = int(stride.total_seconds())
-    assert outer_stride % inner_stride == 0, (
+    assert time_delta % stride == dt.timedelta(), (
         f'The outer simulation stride (time_delta={time_delta}) must be a '
         f'multiple of the inner simulation stride (stride={stride})')
 
-    for _ in range(outer_stride // inner_stride):
+    for _ in range(time_delta // stride):
       state_changes = _simulate_step_internal(
           self.state, wind_vector, atmosphere, effective_action, stride)
       for k, v in state_changes.items():
-- 
2.43.0


From b6028aae204435ceb1d73f0e0fbe12b7eac63645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:37 +0000
Subject: [PATCH 27/30] fix: step_schedule raised OverflowError once the growth
 left the range of floats, instead of staying at its maximum

---
 .../generative/learn_wind_field_generator.py                | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index a403c55..762b032 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -90,7 +90,11 @@ def step_schedule(idx: int,
   Returns:
     A value that is increased at regular intervals.
   """
-  return min(start_value * (increment**(idx // frequency)), max_val)
+  try:
+    value = start_value * increment**(idx // frequency)
+  except OverflowError:  # The growth has left the range of floats.
+    value = start_value * float('inf') if start_value else start_value
+  return min(value, max_val)
 
 
 def kl_divergence(mean, logvar):
-- 
2.43.0


From 063036e37a0713d6c0ec48a3482d069846291519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 28/30] fix: end_episode of the station seeker and MLP agents
 required terminal, which the interface of agents makes optional

---
 balloon_learning_environment/agents/mlp_agent.py            | 2 +-
 balloon_learning_environment/agents/station_seeker_agent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/agents/mlp_agent.py b/balloon_learning_environment/agents/mlp_agent.py
index a3b5af1..d68bdd3 100644
--- a/balloon_learning_environment/agents/mlp_agent.py
+++ b/balloon_learning_environment/agents/mlp_agent.py
@@ -140,7 +140,7 @@ class MLPAgent(agent.Agent):
     self.last_action = action
     return action
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def set_mode(self, mode: Union[agent.AgentMode, str]) -> None:
diff --git a/balloon_learning_environment/agents/station_seeker_agent.py b/balloon_learning_environment/agents/station_seeker_agent.py
index a353bdf..83a68a7 100644
--- a/balloon_learning_environment/agents/station_seeker_agent.py
+++ b/balloon_learning_environment/agents/station_seeker_agent.py
@@ -66,7 +66,7 @@ class StationSeekerAgent(agent.Agent):
 
     return self.pick_action(observation)
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def pick_action(self, features_as_vector: np.ndarray) -> int:
-- 
2.43.0


From 0dacbd46725279d18caba4024db200cf37385976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:10 +0000
Subject: [PATCH 29/30] fix: the Julian day was one day off from March to
 August of years such as 2100

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 3d4fde3..818ee77 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -72,7 +72,7 @@ def solar_calculator(latlng: s2.LatLng,
   # Compute Julian day number from Gregorian calendar.
   julian_day_number = (367.0 * time.year - np.floor(7.0 * (time.year + np.floor(
       (time.month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 * (np.floor(
-          (time.year + (time.month - 9.0) / 7.0) / 100.0) + 1.0) / 4.0) +
+          (time.year + int((time.month - 9) / 7)) / 100.0) + 1.0) / 4.0) +
                        np.floor(275.0 * time.month / 9.0) + time.day +
                        1721028.5)
 
-- 
2.43.0


From a5d16baa7ce9e9bacbc32eea4b3433a9cdf1af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 30/30] fix: get_collector_data raised TypeError without an
 argument, its documented default

---
 balloon_learning_environment/train_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index ca295c0..285fd91 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -29,7 +29,7 @@ def get_collector_data(
 ) -> List[collector_dispatcher.CollectorConstructorType]:
   """Returns a list of gin files and constructors for each passed collector."""
   collector_constructors = []
-  for c in collectors:
+  for c in collectors or ():
     if c not in collector_dispatcher.AVAILABLE_COLLECTORS:
       continue
     collector_constructors.append(
-- 
2.43.0

