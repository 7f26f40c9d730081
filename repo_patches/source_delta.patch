From c53a101214d96b1079cd70018d1f327b956347a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 01/45] fix: do not compare new start times with stale ones

Timing a schedule a second time (for example one schedule object used as the
body of two loops) kept the start times of the first pass when these were later.
---
 quantify_scheduler/compilation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 038f029..9f61597 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -173,10 +173,10 @@ def _determine_absolute_timing_schedule(
         if i == 0:
             schedulable.data["abs_time"] = 0.0
         elif scheduling_strategy == SchedulingStrategy.ASAP:
-            for timing_constraint in timing_constraints:
-                abs_time = _get_start_time(schedule, timing_constraint, operation, time_unit)
-                if "abs_time" not in schedulable or abs_time > schedulable["abs_time"]:
-                    schedulable.data["abs_time"] = abs_time
+            schedulable.data["abs_time"] = max(
+                _get_start_time(schedule, timing_constraint, operation, time_unit)
+                for timing_constraint in timing_constraints
+            )
         else:
             schedulable.data["abs_time"] = _get_start_time(
                 schedule, timing_constraints[0], operation, time_unit
-- 
2.43.0


From 2eb945fa8e6022ceda485f78b26a1f043e4ecec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 02/45] fix: apply next_operation_delay once when a schedule is
 timed again

A schedule object that is the body of two loops is timed twice, which added
the delay of a measurement to the next operation twice.
---
 quantify_scheduler/compilation.py        | 6 ++++--
 quantify_scheduler/schedules/schedule.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 9f61597..cad0a80 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -219,8 +219,10 @@ def _apply_operation_delays(
         if "next_operation_delay" in operation.data:
             delays[schedulable_name] = operation.data["next_operation_delay"]
         for timing_constraint in schedulable.data["timing_constraints"]:
-            if timing_constraint.ref_schedulable in delays:
-                timing_constraint.rel_time += delays[timing_constraint.ref_schedulable]
+            delay = delays.get(timing_constraint.ref_schedulable, 0.0)
+            if delay != timing_constraint.applied_delay:
+                timing_constraint.rel_time += delay - timing_constraint.applied_delay
+                timing_constraint.applied_delay = delay
         yield schedulable_name
 
 
diff --git a/quantify_scheduler/schedules/schedule.py b/quantify_scheduler/schedules/schedule.py
index f22fb00..1d2a1cb 100644
--- a/quantify_scheduler/schedules/schedule.py
+++ b/quantify_scheduler/schedules/schedule.py
@@ -974,6 +974,8 @@ class TimingConstraint:
     """The point on the to be added schedulable against which `rel_time` is defined."""
     rel_time: float
     """The time between `ref_pt` and `ref_pt_new`."""
+    applied_delay: float = 0.0
+    """The part of `rel_time` that was added by the ``next_operation_delay`` of the reference."""
 
     @property
     def data(self) -> dict:
-- 
2.43.0


From 87755221a0b3157bfb0f61fa94703b7fa96b4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 03/45] fix: count every real-time instruction that runs inside
 a conditional

---
 .../backends/qblox/compiler_abc.py            |  1 -
 .../backends/qblox/conditional.py             | 19 -----------------
 .../backends/qblox/q1asm_instructions.py      | 21 +++++++++++++++++++
 .../backends/qblox/qasm_program.py            | 14 ++++++++++---
 4 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 9c89e20..8391b1c 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -724,7 +724,6 @@ class SequencerCompiler(ABC):
             elif isinstance(operation, ControlFlowReturnStrategy):
                 return self.ParseOperationStatus.EXITED_CONTROL_FLOW
             else:
-                qasm.conditional_manager.update(operation)
                 self._insert_qasm(operation, qasm)
 
         return self.ParseOperationStatus.EXITED_CONTROL_FLOW
diff --git a/quantify_scheduler/backends/qblox/conditional.py b/quantify_scheduler/backends/qblox/conditional.py
index 7c533ec..45567af 100644
--- a/quantify_scheduler/backends/qblox/conditional.py
+++ b/quantify_scheduler/backends/qblox/conditional.py
@@ -11,10 +11,6 @@ from typing import TYPE_CHECKING
 if TYPE_CHECKING:
     from collections.abc import Sequence
 
-    from quantify_scheduler.backends.qblox.operation_handling.base import (
-        IOperationStrategy,
-    )
-
 
 @dataclass
 class ConditionalManager:
@@ -29,21 +25,6 @@ class ConditionalManager:
     end_time: int = 0
     """End time of conditional playback."""
 
-    def update(self, operation: IOperationStrategy) -> None:
-        """
-        Update the conditional manager.
-
-        Parameters
-        ----------
-        operation : IOperationStrategy
-            Operation whose information is used to update the conditional manager.
-        time :
-            Timing
-
-        """
-        if operation.operation_info.is_real_time_io_operation:
-            self.num_real_time_instructions += 1
-
     def reset(self) -> None:
         """Reset the conditional manager."""
         self.num_real_time_instructions = 0
diff --git a/quantify_scheduler/backends/qblox/q1asm_instructions.py b/quantify_scheduler/backends/qblox/q1asm_instructions.py
index 34f1c06..157239b 100644
--- a/quantify_scheduler/backends/qblox/q1asm_instructions.py
+++ b/quantify_scheduler/backends/qblox/q1asm_instructions.py
@@ -56,3 +56,24 @@ PLAY_PULSE = "play_pulse"
 ACQUIRE_TIMETAGS = "acquire_timetags"
 ACQUIRE_DIGITAL = "acquire_digital"
 UPD_THRES = "upd_thres"
+
+TIMED_INSTRUCTIONS = frozenset(
+    {
+        PLAY,
+        ACQUIRE,
+        ACQUIRE_WEIGHED,
+        ACQUIRE_TTL,
+        ACQUIRE_TIMETAGS,
+        ACQUIRE_DIGITAL,
+        WAIT,
+        WAIT_SYNC,
+        WAIT_TRIGGER,
+        UPDATE_PARAMETERS,
+        FEEDBACK_TRIGGER_EN,
+        FEEDBACK_TRIGGERS_RST,
+        PLAY_PULSE,
+        UPD_THRES,
+    }
+)
+"""Real-time instructions that take time: a conditional that is not taken replaces each of these by
+a wait."""
diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index e376746..da9b7b5 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -166,6 +166,8 @@ class QASMProgram:
 
         """
         self.instructions.append(self.get_instruction_as_list(*args, **kwargs))
+        if self.instructions[-1][1] in q1asm_instructions.TIMED_INSTRUCTIONS:
+            self.conditional_manager.num_real_time_instructions += 1
         return self.instructions[-1]
 
     # --- QOL functions -----
@@ -245,7 +247,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
             else:
                 for _ in range(repetitions):
                     self.emit(
@@ -255,7 +256,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
             time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
         else:
             time_left = int(wait_time)
@@ -268,7 +268,6 @@ class QASMProgram:
             )
             if count_as_elapsed_time:
                 self.elapsed_time += time_left
-            self.conditional_manager.num_real_time_instructions += 1
 
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
@@ -559,6 +558,7 @@ class QASMProgram:
         comment = f"iterator for loop with label {label}"
 
         self._elapsed_times_in_loops.append(0)
+        real_time_instructions_before_loop = self.conditional_manager.num_real_time_instructions
 
         self.emit(q1asm_instructions.MOVE, repetitions, register, comment=comment)
         self.emit(q1asm_instructions.NEW_LINE, label=label)
@@ -572,6 +572,14 @@ class QASMProgram:
 
         self._elapsed_times_in_loops[-1] += last_elapsed_time * repetitions
 
+        # The instructions in the loop body are executed once for each repetition.
+        real_time_instructions_in_loop = (
+            self.conditional_manager.num_real_time_instructions - real_time_instructions_before_loop
+        )
+        self.conditional_manager.num_real_time_instructions += real_time_instructions_in_loop * (
+            repetitions - 1
+        )
+
     @contextmanager
     def temp_registers(self, amount: int = 1) -> Iterator[list[str]]:
         """
-- 
2.43.0


From e3be92b85f4c5b9bd838598f968b71fea983efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 04/45] fix: account for every wait in the else branch of a
 conditional

---
 .../backends/qblox/qasm_program.py            | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index da9b7b5..bf188d1 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -269,6 +269,11 @@ class QASMProgram:
             if count_as_elapsed_time:
                 self.elapsed_time += time_left
 
+    @staticmethod
+    def _num_wait_instructions(wait_time: int) -> int:
+        """Number of wait instructions executed by ``auto_wait`` for this wait time."""
+        return -(-wait_time // constants.IMMEDIATE_MAX_WAIT_TIME)
+
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
         Waits until the start of a pulse or acquisition.
@@ -497,9 +502,18 @@ class QASMProgram:
             self.conditional_manager.duration
             - constants.MIN_TIME_BETWEEN_OPERATIONS
             * self.conditional_manager.num_real_time_instructions
-            + constants.MIN_TIME_BETWEEN_OPERATIONS
         )
-        self.auto_wait(duration, count_as_elapsed_time=False)
+        # Each wait instruction in the else branch takes additional time if the conditional is
+        # taken, which the else branch itself needs to wait for as well.
+        num_else_waits = 1
+        while (
+            needed := self._num_wait_instructions(
+                duration + constants.MIN_TIME_BETWEEN_OPERATIONS * num_else_waits
+            )
+        ) > num_else_waits:
+            num_else_waits = needed
+        else_branch_overhead = constants.MIN_TIME_BETWEEN_OPERATIONS * num_else_waits
+        self.auto_wait(duration + else_branch_overhead, count_as_elapsed_time=False)
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
             0,
@@ -508,7 +522,7 @@ class QASMProgram:
             0,
             comment="stop conditional playback",
         )
-        self.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        self.elapsed_time += else_branch_overhead
 
         self.conditional_manager.reset()
         self._lock_conditional = False
-- 
2.43.0


From cb4eeaeb75388c04c0080bf96ee0236e884dd6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 05/45] fix: never leave a remainder shorter than the shortest
 wait

---
 quantify_scheduler/backends/qblox/qasm_program.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index bf188d1..b0f5953 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -233,7 +233,12 @@ class QASMProgram:
 
         comment = comment if comment else f"auto generated wait ({wait_time} ns)"
         if wait_time > constants.IMMEDIATE_MAX_WAIT_TIME:
-            repetitions = wait_time // constants.IMMEDIATE_MAX_WAIT_TIME
+            # The remaining time must not be shorter than the shortest possible wait.
+            repetitions = self._num_wait_instructions(wait_time) - 1
+            time_left = wait_time - repetitions * constants.IMMEDIATE_MAX_WAIT_TIME
+            if time_left == constants.IMMEDIATE_MAX_WAIT_TIME:
+                repetitions += 1
+                time_left = 0
 
             # number of instructions where it becomes worthwhile to use a loop.
             instr_number_using_loop = 4
@@ -256,7 +261,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-            time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
         else:
             time_left = int(wait_time)
 
@@ -272,7 +276,11 @@ class QASMProgram:
     @staticmethod
     def _num_wait_instructions(wait_time: int) -> int:
         """Number of wait instructions executed by ``auto_wait`` for this wait time."""
-        return -(-wait_time // constants.IMMEDIATE_MAX_WAIT_TIME)
+        return (
+            max(wait_time - constants.MIN_TIME_BETWEEN_OPERATIONS, 0)
+            // constants.IMMEDIATE_MAX_WAIT_TIME
+            + 1
+        )
 
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
-- 
2.43.0


From 65b37829298fc92482bfe66026ac140f11c39715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 06/45] fix: move the NCO opposite to the clock behind a
 downconverter

SetClockFrequency added the change of the clock frequency to the NCO frequency
also where f_out = f_downconverter - f_in, so the output moved the wrong way.
---
 quantify_scheduler/backends/qblox/analog.py           |  5 +++++
 .../backends/qblox/operation_handling/virtual.py      | 11 ++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 64ccb86..e47c07d 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -426,11 +426,16 @@ class AnalogSequencerCompiler(SequencerCompiler):
         super().prepare()
 
     def _update_set_clock_frequency_operations(self) -> None:
+        # f_out = f_downconverter - f_in: the NCO moves opposite to the clock.
+        # A downconverter is only taken into account together with an LO.
+        has_lo = self.associated_ext_lo is not None or isinstance(self.parent, RFModuleCompiler)
+        downconverted = has_lo and self.downconverter_freq is not None
         for op_strat in self.op_strategies:
             if op_strat.operation_info.name == SetClockFrequency.__name__:
                 op_strat.operation_info.data.update(
                     {
                         "interm_freq_old": self.frequency,
+                        "downconverted": downconverted,
                     }
                 )
 
diff --git a/quantify_scheduler/backends/qblox/operation_handling/virtual.py b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
index fd13b5c..b9a18c6 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/virtual.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
@@ -145,11 +145,12 @@ class NcoSetClockFrequencyStrategy(IdleStrategy):
                 f"the hardware config."
             )
 
-        interm_freq_new = (
-            (interm_freq_old + clock_freq_new - clock_freq_old)
-            if (clock_freq_new is not None)
-            else interm_freq_old
-        )
+        if clock_freq_new is None:
+            interm_freq_new = interm_freq_old
+        elif self.operation_info.data.get("downconverted"):
+            interm_freq_new = interm_freq_old - clock_freq_new + clock_freq_old
+        else:
+            interm_freq_new = interm_freq_old + clock_freq_new - clock_freq_old
 
         frequency_args = helpers.get_nco_set_frequency_arguments(interm_freq_new)
         qasm_program.emit(
-- 
2.43.0


From f917bc2eb4a486f15eb32f35c0f65d8283f0d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 07/45] fix: determine the timing of nested schedules anew each
 time

A sub-schedule that was timed before (with other operations, or in ideal time
units) kept its outdated start times and duration when its parent was timed
again, unlike the body of a loop or conditional.
---
 quantify_scheduler/compilation.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index cad0a80..949962e 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -124,15 +124,9 @@ def _determine_absolute_timing_schedule(
         raise ValueError(f"schedule '{schedule.name}' contains no schedulables.")
 
     for op_key in schedule.operations:
-        if isinstance(schedule.operations[op_key], Schedule):
-            if schedule.operations[op_key].get("duration", None) is None:
-                schedule.operations[op_key] = _determine_absolute_timing(
-                    schedule=schedule.operations[op_key],
-                    time_unit=time_unit,
-                    config=config,
-                )
-
-        elif isinstance(schedule.operations[op_key], ControlFlowOperation):
+        # A previous timing of a nested schedule may be outdated (operations added since,
+        # or another time unit), so it is always determined again.
+        if isinstance(schedule.operations[op_key], (Schedule, ControlFlowOperation)):
             schedule.operations[op_key] = _determine_absolute_timing(
                 schedule=schedule.operations[op_key],
                 time_unit=time_unit,
-- 
2.43.0


From 1597488a82ecf1857270b6c0484ba334eb7ecb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 08/45] fix: let weighted thresholded acquisitions trigger
 conditionals

---
 quantify_scheduler/backends/qblox_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 5e2415f..56dcb29 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -484,6 +484,7 @@ def _set_conditional_info_map(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
                 DualThresholdedTriggerCount.__name__,
             ):
@@ -523,6 +524,7 @@ def _insert_latch_reset(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
             ):
                 if (feedback_trigger_label := info.get("feedback_trigger_label")) is not None:
-- 
2.43.0


From 391082193dca9d2118437b0877a60886b7b66a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 09/45] fix: take repetitions into account when running out of
 bins

---
 .../backends/qblox/qblox_acq_index_manager.py               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
index 089b65f..5f904ea 100644
--- a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
+++ b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
@@ -255,7 +255,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
@@ -432,7 +433,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
-- 
2.43.0


From adf56108ba0da142994c7070a08d2f55aa959958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 10/45] fix: keep the coordinates of trigger count
 distributions

An acquisition that returns the distribution of its counts has one entry
per number of counts, and all of them carry the coordinates of the
acquisition. Retrieving raised unless exactly one number was seen.
---
 quantify_scheduler/instrument_coordinator/utility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index fb29b13..e9e3cc3 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -234,6 +234,9 @@ def add_acquisition_coords_nonbinned(
     data_array_coords = {}
 
     for key, value in coords.items():
-        data_array_coords[key] = (acq_index_dim_name, [value])
+        data_array_coords[key] = (
+            acq_index_dim_name,
+            [value] * data_array.sizes[acq_index_dim_name],
+        )
 
     data_array.coords.update(data_array_coords)
-- 
2.43.0


From 0ad07092a9d2bfdc5484f2b4c225893edd340919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 11/45] fix: compile thresholded trigger counts without
 feedback on the QTM

A ThresholdedTriggerCount whose result is not used by a conditional has no
feedback trigger address, which raised a KeyError. It now sends no trigger.
---
 quantify_scheduler/backends/qblox/timetag.py | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/timetag.py b/quantify_scheduler/backends/qblox/timetag.py
index 8f3e511..a793ff8 100644
--- a/quantify_scheduler/backends/qblox/timetag.py
+++ b/quantify_scheduler/backends/qblox/timetag.py
@@ -347,15 +347,21 @@ class TimetagSequencerCompiler(SequencerCompiler):
         # We ignore None because it does not interfere with other acquisitions/conditionals.
         # This is because a LatchReset is used for every thresholded acq with a not-None
         # address.
-        address = self._get_unique_value_or_raise(
-            values=(
-                acq.operation_info.data["feedback_trigger_address"]
-                for acq in acquisitions
-                if acq.operation_info.data["feedback_trigger_address"] is not None
-            ),
-            setting_name="feedback_trigger_address",
+        addresses = [
+            address
+            for acq in acquisitions
+            if (address := acq.operation_info.data.get("feedback_trigger_address")) is not None
+        ]
+        # If there are no addresses, the results are not used in any conditional, and no
+        # trigger is to be sent (address 0).
+        address = (
+            self._get_unique_value_or_raise(
+                values=addresses, setting_name="feedback_trigger_address"
+            )
+            if addresses
+            else 0
         )
-        self._settings.thresholded_acq_trigger_write_en = True
+        self._settings.thresholded_acq_trigger_write_en = bool(addresses)
         # For a ThresholdedTriggerCount with one threshold, both the low and high
         # thresholds are the same.
         self._settings.thresholded_acq_trigger_write_threshold_low = threshold
-- 
2.43.0


From 250753fa6735bdfff50ca0e5a2d982df466b26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 12/45] fix: assign time tag traces to the right acquisition
 and repetition

With several TimetagTrace acquisitions and several repetitions, the bins of
an acquisition are consecutive, while the recorded windows are in order of
execution, so that windows ended up under another acquisition.
---
 .../components/qblox.py                       | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 2170b8a..40a8172 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2636,10 +2636,21 @@ class _QTMAcquisitionManager(_AcquisitionManagerBase):
 
         qblox_acq_name = self._qblox_acq_index_to_qblox_acq_name(qblox_acq_index)
         scope_data = self.instrument.io_channels[seq_idx].get_scope_data()
+        timedeltas = hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
+            "timedelta"
+        ]
+        # The windows in the scope data are in order of execution, that is, all acquisitions
+        # of the first repetition, then those of the second, and so on. The bins are not.
+        bins_in_execution_order = [
+            index_bin.bin + repetition * index_bin.stride
+            for repetition in range(self._repetitions)
+            for _acq_index, index_bin in sorted(
+                seq_channel_hardware_mapping.items(), key=lambda item: item[0]
+            )
+        ]
+        window_of_bin = {bin_: window for window, bin_ in enumerate(bins_in_execution_order)}
         timetag_traces = self._split_timetag_trace_data_per_window(
-            timetags=hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
-                "timedelta"
-            ],
+            timetags=[timedeltas[bin_] for bin_ in bins_in_execution_order],
             scope_data=scope_data,
         )
 
@@ -2661,7 +2672,9 @@ class _QTMAcquisitionManager(_AcquisitionManagerBase):
                 seq_channel_hardware_mapping.items()
             ):
                 timetag_traces_bin = timetag_traces[
-                    qblox_acq_index_bin.bin + repetition * qblox_acq_index_bin.stride
+                    window_of_bin[
+                        qblox_acq_index_bin.bin + repetition * qblox_acq_index_bin.stride
+                    ]
                 ]
                 rect_array[repetition][i][0 : len(timetag_traces_bin)] = timetag_traces_bin
         acq_index_dim_name = self._acq_channels_data[acq_channel].acq_index_dim_name
-- 
2.43.0


From 3add3b90fc7352ac4b4d2bc24f3c49b2b51f23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 13/45] fix: attenuation of an RF output survives port-clocks
 without attenuation

A second port-clock on the same output, for which no attenuation is given,
overwrote the attenuation that was given with None.
---
 quantify_scheduler/backends/qblox/analog.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index e47c07d..5411ebc 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -1235,7 +1235,7 @@ class RFModuleCompiler(AnalogModuleCompiler, ABC):
             path,
         ) in self.instrument_cfg.portclock_to_path.items():
             if path.channel_name == "complex_input_0" and input_att_cfg is not None:
-                in0_att = input_att_cfg.get(portclock)
+                in0_att = input_att_cfg.get(portclock, in0_att)
 
         for (
             portclock,
@@ -1254,10 +1254,10 @@ class RFModuleCompiler(AnalogModuleCompiler, ABC):
                         in0_att = in0_att_from_output
 
                 if output_att_cfg is not None:
-                    out0_att = output_att_cfg.get(portclock)
+                    out0_att = output_att_cfg.get(portclock, out0_att)
 
             if path.channel_name == "complex_output_1" and output_att_cfg is not None:
-                out1_att = output_att_cfg.get(portclock)
+                out1_att = output_att_cfg.get(portclock, out1_att)
 
         self._settings.in0_att = _convert_to_int(in0_att, label="in0_att")
         self._settings.out0_att = _convert_to_int(out0_att, label="out0_att")
-- 
2.43.0


From 95aa88485b77a1c4485bf88e17f6955e2e6d07ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 14/45] fix: set the output attenuation of the QRC to its value

The walrus operator was applied to the comparison, so the attenuation was set to True.
---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 40a8172..b757352 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1373,7 +1373,7 @@ class _QRCComponent(_RFComponent, _AnalogReadoutComponent):
         # configure attenuation
 
         for i in range(6):
-            if out_att := getattr(settings, f"out{i}_att") is not None:
+            if (out_att := getattr(settings, f"out{i}_att")) is not None:
                 self._set_parameter(self.instrument, f"out{i}_att", out_att)
 
     def _configure_lo_settings(
-- 
2.43.0


From d5fc0eb31eaf3e31608b35b91934f14fe7eb4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 15/45] fix: disable the trigger network output of sequencers
 without feedback

The setting was only made for thresholded acquisitions, so that a sequencer kept
sending the triggers of a previously prepared program.
---
 .../instrument_coordinator/components/qblox.py       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index b757352..bc0310a 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -900,12 +900,14 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
                 "thresholded_acq_trigger_address",
                 settings.thresholded_acq_trigger_write_address,
             )
+        # Always set, also when no thresholded acquisition is used: a previous program may
+        # have enabled the triggers.
+        self._set_parameter(
+            self.instrument.sequencers[seq_idx],
+            "thresholded_acq_trigger_en",
+            bool(settings.thresholded_acq_trigger_write_en),
+        )
         if settings.thresholded_acq_trigger_write_en is not None:
-            self._set_parameter(
-                self.instrument.sequencers[seq_idx],
-                "thresholded_acq_trigger_en",
-                settings.thresholded_acq_trigger_write_en,
-            )
             self._set_parameter(
                 self.instrument.sequencers[seq_idx],
                 "thresholded_acq_trigger_invert",
-- 
2.43.0


From e287d9351b4aa880f641f79b56972f04f346516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 16/45] fix: keep the result of an automatic sideband
 calibration

When a program was prepared again with the same NCO frequency, the calibrated mixer
corrections were overwritten with the default ones.
---
 .../instrument_coordinator/components/qblox.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index bc0310a..f9fd078 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -556,11 +556,11 @@ class _AnalogModuleComponent(_ModuleComponentBase):
     def _configure_nco_mixer_calibration(
         self, seq_idx: int, settings: AnalogSequencerSettings
     ) -> None:
-        if (
-            settings.auto_sideband_cal == SidebandCalEnum.ON_INTERM_FREQ_CHANGE
-            and self._nco_frequency_changed[seq_idx]
-        ):
-            self.instrument.sequencers[seq_idx].sideband_cal()
+        if settings.auto_sideband_cal == SidebandCalEnum.ON_INTERM_FREQ_CHANGE:
+            # The calibration sets the mixer corrections. If it does not need to run again, the
+            # values it found must be kept.
+            if self._nco_frequency_changed[seq_idx]:
+                self.instrument.sequencers[seq_idx].sideband_cal()
         else:
             if settings.mixer_corr_phase_offset_degree is not None:
                 self._set_parameter(
-- 
2.43.0


From 2338c9683bb75e38a6a693f2b43230b15d40b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 17/45] fix: LO frequency of an RF output survives port-clocks
 without LO frequency

A second port-clock on the same output, for which no LO frequency is given, overwrote
the one that was given with None, so that compilation failed depending on the names.
---
 quantify_scheduler/backends/types/qblox.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/types/qblox.py b/quantify_scheduler/backends/types/qblox.py
index 7bced1e..cd0a966 100644
--- a/quantify_scheduler/backends/types/qblox.py
+++ b/quantify_scheduler/backends/types/qblox.py
@@ -568,9 +568,9 @@ class RFModuleSettings(AnalogModuleSettings):
             for portclock, path in mapping.portclock_to_path.items():
                 pc_freqs = modulation_frequencies.get(portclock)
                 lo_freq = pc_freqs.lo_freq if pc_freqs is not None else None
-                if (
-                    lo_freq_setting := channel_name_to_lo_freq_setting.get(path.channel_name)
-                ) is not None:
+                lo_freq_setting = channel_name_to_lo_freq_setting.get(path.channel_name)
+                # Other port-clocks on the same channel may not specify the LO frequency.
+                if lo_freq_setting is not None and lo_freq is not None:
                     rf_settings[lo_freq_setting] = lo_freq
 
         combined_settings = {**rf_settings, **kwargs}
-- 
2.43.0


From d6980e0d994f6d848fd5e2b2db882e411f1878d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:39 +0000
Subject: [PATCH 18/45] fix: frequency of an external LO may be given by any of
 its port-clocks

---
 quantify_scheduler/backends/qblox_backend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 56dcb29..d1cb6b1 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1014,6 +1014,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                             lo_config = lo_configs[lo_name]
                             if lo_config.hardware_description.instrument_name is None:
                                 lo_config.hardware_description.instrument_name = lo_name
+                            if lo_config.frequency is None:
                                 lo_config.frequency = frequencies.lo_freq
 
         # Extract hardware options
-- 
2.43.0


From d74826699601f1f59f5a22b3ce31db68fbf6b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 19/45] fix: skip the acquisition delay of a measurement with
 its own frequency

---
 quantify_scheduler/operations/measurement_factories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 6198d44..7edeb4e 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -148,7 +148,9 @@ def _dispersive_measurement(  # noqa: PLR0915
     schedule_data = {}
     if next_operation_delay:
         schedule_data["next_operation_delay"] = next_operation_delay
-    subschedule = Schedule("dispersive_measurement", data=schedule_data)
+    # The delay applies to what comes after the whole measurement, including the
+    # frequency reset at its end.
+    subschedule = Schedule("dispersive_measurement", data=schedule_data if freq is None else None)
 
     if acq_protocol != "LongTimeTrace":
         if reset_clock_phase:
@@ -377,7 +379,7 @@ def _dispersive_measurement(  # noqa: PLR0915
         raise ValueError(f'Acquisition protocol "{acq_protocol}" is not supported.')
 
     if freq is not None:
-        subschedule_with_freq = Schedule("dispersive_measurement_with_freq")
+        subschedule_with_freq = Schedule("dispersive_measurement_with_freq", data=schedule_data)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=freq))
         subschedule_with_freq.add(subschedule)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=None))
-- 
2.43.0


From 8323dc169bf7d6e6e4ab2826f73d29f40a7663f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 20/45] fix: use the acquisition channel of a long time trace

---
 quantify_scheduler/operations/measurement_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 7edeb4e..b18acb6 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -346,7 +346,7 @@ def _dispersive_measurement(  # noqa: PLR0915
             port=port,
             clock=clock,
             duration=acq_duration,
-            acq_channel=0,
+            acq_channel=acq_channel,
             coords=coords,
             acq_index=acq_index,
             bin_mode=bin_mode,
-- 
2.43.0


From 1e290a30e38c900c7db958860ffc7631b78e3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 21/45] fix: merging Rz gates does not change other gates of
 the circuit

---
 quantify_scheduler/compilation.py | 51 ++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 949962e..97ec630 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import logging
+from copy import deepcopy
 from typing import TYPE_CHECKING, Literal, overload
 
 import networkx as nx
@@ -427,27 +428,28 @@ def _merge_rz_gates(
                 config=config,
             )
 
-        last_op = None
-        # Copy list so we can modify it while iterating
-        for inner_sched_key in list(op.schedulables):
-            inner_sched = op.schedulables[inner_sched_key]
+        last_sched = None
+        replaced_ids = set()
+        for inner_sched in op.schedulables.values():
             inner_op = op.operations[inner_sched["operation_id"]]
 
             # Merge Rz gates if possible
-            if (
-                isinstance(inner_op, Rz)
-                and isinstance(last_op, Rz)
-                and inner_op.qubit == last_op.qubit
-            ):
-                last_op.theta += inner_op.theta
-                noop = IdlePulse(0)
-                noop_id = noop.hash
-                op.operations[noop_id] = noop
-                inner_sched["operation_id"] = noop_id
+            if last_sched is not None and _can_merge_rz_gates(op, last_sched, inner_sched):
+                # The operations may be used more than once, so they are replaced, not modified.
+                merged_op = deepcopy(op.operations[last_sched["operation_id"]])
+                merged_op.theta += inner_op.theta
+                for sched, new_op in ((last_sched, merged_op), (inner_sched, IdlePulse(0))):
+                    replaced_ids.add(sched["operation_id"])
+                    op.operations[new_op.hash] = new_op
+                    sched["operation_id"] = new_op.hash
                 continue
 
             # Record last
-            last_op = inner_op
+            last_sched = inner_sched
+
+        used_ids = {sched["operation_id"] for sched in op.schedulables.values()}
+        for operation_id in replaced_ids - used_ids:
+            del op.operations[operation_id]
 
         return op
     elif isinstance(op, ControlFlowOperation):
@@ -460,6 +462,25 @@ def _merge_rz_gates(
         return op
 
 
+def _can_merge_rz_gates(schedule: Schedule, first: Schedulable, second: Schedulable) -> bool:
+    """Whether ``second``, the schedulable after ``first``, is an Rz gate that can be part of it."""
+    first_op = schedule.operations[first["operation_id"]]
+    second_op = schedule.operations[second["operation_id"]]
+    return (
+        isinstance(first_op, Rz)
+        and isinstance(second_op, Rz)
+        and first_op.qubit == second_op.qubit
+        and first_op.data["gate_info"]["device_overrides"]
+        == second_op.data["gate_info"]["device_overrides"]
+        # Nothing can happen in between.
+        and all(
+            constraint.ref_schedulable is None and constraint.rel_time == 0
+            for schedulable in (first, second)
+            for constraint in schedulable["timing_constraints"]
+        )
+    )
+
+
 def validate_config(config: dict, scheme_fn: str) -> bool:
     """
     Validate a configuration using a schema.
-- 
2.43.0


From 93d5c74f2c55edd86f80679fbec7ccef91eb22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 22/45] fix: operations which differ by -1 instead of -2 are
 different

---
 quantify_scheduler/helpers/collections.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index 9e48ca7..bf7b41f 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 from collections import UserDict
 from collections.abc import Iterable, MutableMapping
+from numbers import Number
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -47,7 +48,12 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
         tuple_of_hashes = ((key, make_hash(val)) for key, val in obj.items())
         return hash(frozenset(sorted(tuple_of_hashes)))
 
-    return hash(obj)
+    obj_hash = hash(obj)
+    # In Python, -1 has the same hash as -2.
+    if obj_hash == hash(-2) and isinstance(obj, Number) and obj == -1:
+        return hash("-1")
+
+    return obj_hash
 
 
 def without(dict_in: dict, keys: list) -> dict:
-- 
2.43.0


From f1aeffbd8cdf845f8c24a61dcf45bd0481373f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:06 +0000
Subject: [PATCH 23/45] fix: add up overlapping pulses inside loops and
 conditionals

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 214740d..d1e4e65 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -17,6 +17,7 @@ from quantify_scheduler.backends.qblox.helpers import is_square_pulse, to_grid_t
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
     SimpleNumericalPulse,
 )
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 if TYPE_CHECKING:
@@ -81,8 +82,8 @@ def _construct_pulses_by_port_clock(
     pulses_by_port_clock = defaultdict(list)
     for schedulable_key, schedulable in schedule.schedulables.items():
         op = schedule.operations[schedulable["operation_id"]]
-        if isinstance(op, Schedule):
-            schedule.operations[schedulable["operation_id"]] = stack_pulses(op, {})
+        if isinstance(op, (Schedule, ControlFlowOperation)):
+            _stack_pulses_in_body(op)
             continue
         elif not op.valid_pulse or not op.data.get("pulse_info"):
             continue
@@ -112,6 +113,14 @@ def _construct_pulses_by_port_clock(
     return pulses_by_port_clock
 
 
+def _stack_pulses_in_body(operation: Operation | Schedule) -> None:
+    """Stack the pulses of a nested schedule, or of the body of a control flow operation."""
+    if isinstance(operation, Schedule):
+        stack_pulses(operation, {})
+    elif isinstance(operation, ControlFlowOperation):
+        _stack_pulses_in_body(operation.body)
+
+
 def _construct_pulses_by_interval(
     sorted_pulses: list[PulseParameters],
 ) -> list[PulseInterval]:
-- 
2.43.0


From bff5dede6c8e1325daf58f8fb69dd6846f5c2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:06 +0000
Subject: [PATCH 24/45] fix: a pulse combined from overlapping pulses has its
 own duration

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index d1e4e65..38e53a0 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -266,6 +266,8 @@ def _stack_square_pulses(
                 )
             else:
                 combined_pulse.data["pulse_info"][0]["amp"] += pulse_info["amp"]
+    if combined_pulse is not None:
+        combined_pulse._update()
     _create_schedulable(schedule, interval.start_time, combined_pulse)
 
 
-- 
2.43.0


From ca99f747a10a05a6fb6ea5b475e5c37840b7edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:27 +0000
Subject: [PATCH 25/45] fix: compensate the crosstalk of every pulse, and of
 each only once

---
 .../backends/qblox/crosstalk_compensation.py  | 164 ++++++++++--------
 1 file changed, 96 insertions(+), 68 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index 472887e..5920011 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -13,7 +13,8 @@ if TYPE_CHECKING:
 
 import numpy as np
 
-from quantify_scheduler.schedules import Schedulable, Schedule
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+from quantify_scheduler.schedules import Schedule
 
 
 def crosstalk_compensation(
@@ -49,22 +50,77 @@ def crosstalk_compensation(
         hardware_options.crosstalk, port_clock_list
     )
 
-    for schedulable in list(schedule.schedulables.values()):
-        operation = schedule.operations[schedulable["operation_id"]]
-
-        if isinstance(operation, Schedule):
-            # Recursively apply compensation to nested schedules
-            schedule.operations[schedulable["operation_id"]] = crosstalk_compensation(
-                operation, config
-            )
-        elif is_pulse(operation):
-            _apply_compensation_to_operation(
-                schedule, operation, schedulable, port_clock_list, compensation_matrix
-            )
+    _compensate_schedule(schedule, port_clock_list, compensation_matrix)
 
     return schedule
 
 
+def _compensate_schedule(
+    schedule: Schedule, port_clock_list: list[str], compensation_matrix: np.ndarray
+) -> None:
+    """
+    Compensate all pulses of the schedule, and of everything inside it.
+
+    An operation may be used in several places, so that it is replaced by its compensated
+    version instead of being modified.
+    """
+    operations = {}
+    compensation_operations = {}
+
+    for schedulable_key, schedulable in list(schedule.schedulables.items()):
+        operation_id = schedulable["operation_id"]
+        operation = schedule.operations[operation_id]
+
+        if isinstance(operation, (Schedule, ControlFlowOperation)):
+            if operation_id not in operations:
+                operations[operation_id] = _compensate_body(
+                    operation, port_clock_list, compensation_matrix
+                )
+        elif is_pulse(operation) and _port_clock(operation) in port_clock_list:
+            compensated, added = _compensate_operation(
+                operation, port_clock_list, compensation_matrix
+            )
+            operations[compensated.hash] = compensated
+            schedulable["operation_id"] = compensated.hash
+            for index, compensation_op in added.items():
+                compensation_operations[compensation_op.hash] = compensation_op
+                compensation_schedulable = deepcopy(schedulable)
+                compensation_schedulable["operation_id"] = compensation_op.hash
+                schedule.schedulables[f"{schedulable_key}_compensation_{index}"] = (
+                    compensation_schedulable
+                )
+        else:
+            operations[operation_id] = operation
+
+    schedule.operations.clear()
+    schedule.operations.update(operations)
+    schedule.operations.update(compensation_operations)
+
+
+def _compensate_body(
+    operation: Operation | Schedule,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
+) -> Operation | Schedule:
+    """Compensate a nested schedule or the body of a control flow operation."""
+    if isinstance(operation, Schedule):
+        operation = deepcopy(operation)
+        _compensate_schedule(operation, port_clock_list, compensation_matrix)
+    elif isinstance(operation, ControlFlowOperation):
+        operation = deepcopy(operation)
+        operation.body = _compensate_body(operation.body, port_clock_list, compensation_matrix)
+    elif is_pulse(operation) and _port_clock(operation) in port_clock_list:
+        # The pulses that compensate for it are played at the same time.
+        body = Schedule("crosstalk compensation")
+        body.add(operation)
+        for schedulable in body.schedulables.values():
+            schedulable["abs_time"] = 0
+        body["duration"] = operation.duration
+        _compensate_schedule(body, port_clock_list, compensation_matrix)
+        operation = body
+    return operation
+
+
 def _get_unique_port_clocks(crosstalk: dict[str, dict[str, float]]) -> list[str]:
     port_clocks = set(crosstalk.keys())
     for connections in crosstalk.values():
@@ -114,65 +170,37 @@ def is_pulse(operation: Operation) -> bool:
     )
 
 
-def _apply_compensation_to_operation(
-    schedule: Schedule,
+def _port_clock(operation: Operation) -> str:
+    pulse_info = operation.data["pulse_info"][0]
+    return f"{pulse_info['port']}-{pulse_info['clock']}"
+
+
+def _compensate_operation(
     operation: Operation,
-    schedulable: Schedulable,
     port_clock_list: list[str],
     compensation_matrix: np.ndarray,
-) -> None:
-    port_clock = (
-        f"{operation.data['pulse_info'][0]['port']}-{operation.data['pulse_info'][0]['clock']}"
-    )
-    port_clock_index = port_clock_list.index(port_clock)
+) -> tuple[Operation, dict[int, Operation]]:
+    """Return the compensated operation, and the operations for the other port-clocks."""
+    port_clock_index = port_clock_list.index(_port_clock(operation))
     compensation_row = compensation_matrix[port_clock_index]
 
-    # Add compensation pulses to port clocks that are affected by crosstalk
+    added = {}
     for i, compensation_value in enumerate(compensation_row):
         if compensation_value != 0 and i != port_clock_index:
-            _add_compensation_operation(
-                schedule,
-                operation,
-                schedulable,
-                port_clock_list[i],
-                compensation_value,
-                i,
-            )
-
-    # Adjust all params that have amp in them
-    for key in operation.data["pulse_info"][0]:
-        if "amp" in key:
-            operation.data["pulse_info"][0][key] *= compensation_row[port_clock_index]
-
-
-def _add_compensation_operation(
-    schedule: Schedule,
-    original_operation: Operation,
-    original_schedulable: Schedulable,
-    target_port_clock: str,
-    compensation_value: float,
-    index: int,
-) -> None:
-    compensation_op = deepcopy(original_operation)
-    target_port, target_clock = target_port_clock.split("-")
-
-    # amp of compensation operation is product of the original amplitude and compensation value.
-    compensation_op.data["pulse_info"][0].update(
-        {
-            "port": target_port,
-            "clock": target_clock,
-        }
-    )
-    for key in compensation_op.data["pulse_info"][0]:
-        if "amp" in key:
-            compensation_op.data["pulse_info"][0][key] = (
-                original_operation.data["pulse_info"][0][key] * compensation_value
-            )
-
-    schedule.operations[compensation_op.hash] = compensation_op
-
-    compensation_schedulable = deepcopy(original_schedulable)
-    compensation_schedulable["operation_id"] = compensation_op.hash
-    schedule.schedulables[f"{original_operation.hash}_compensation_{index}"] = (
-        compensation_schedulable
-    )
+            target_port, target_clock = port_clock_list[i].split("-")
+            added[i] = _scaled_operation(operation, compensation_value)
+            added[i].data["pulse_info"][0].update({"port": target_port, "clock": target_clock})
+
+    return _scaled_operation(operation, compensation_row[port_clock_index]), added
+
+
+def _scaled_operation(operation: Operation, factor: complex) -> Operation:
+    """Return a copy of the operation with its pulse multiplied by a factor."""
+    scaled = deepcopy(operation)
+    pulse_info = scaled.data["pulse_info"][0]
+    for key, value in pulse_info.items():
+        if key == "samples":
+            pulse_info[key] = [sample * factor for sample in value]
+        elif key == "offset" or ("amp" in key and key != "t_samples"):
+            pulse_info[key] = value * factor
+    return scaled
-- 
2.43.0


From faea66a00a860d69d7de7ac79d28848603b43302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 26/45] fix: check the range of every FIR coefficient

---
 quantify_scheduler/backends/qblox/instrument_compilers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index ef3631d..92d7137 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -9,8 +9,6 @@ from collections import defaultdict
 from itertools import chain
 from typing import TYPE_CHECKING, Any
 
-import numpy as np
-
 from quantify_scheduler.backends.qblox import compiler_abc
 from quantify_scheduler.backends.qblox.analog import (
     AnalogModuleCompiler,
@@ -212,7 +210,7 @@ class QCMCompiler(BasebandModuleCompiler):
                                 marker_debug_mode_enable,
                             )
                     if key == "fir_coeffs" and value is not None:
-                        if len(value) != 32 or np.any(value) < -2 or np.any(value) >= 2:
+                        if len(value) != 32 or any(coeff < -2 or coeff >= 2 for coeff in value):
                             raise ValueError(
                                 "The FIR filter has 32 coefficients with a range of [-2,2) each."
                             )
-- 
2.43.0


From ce469022fd1a8d9d42471535b6fd53be3ea446e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 27/45] fix: distortion corrections on both complex outputs of
 a QCM

---
 quantify_scheduler/backends/qblox/instrument_compilers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index 92d7137..e2560bd 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -227,6 +227,9 @@ class QCMCompiler(BasebandModuleCompiler):
                     if isinstance(correction_cfg, (HardwareDistortionCorrection, list)):
                         output_name = path.channel_name
                         output_number = int(output_name.split("_")[-1])
+                        if isinstance(correction_cfg, list):
+                            # A complex output consists of two real outputs.
+                            output_number *= 2
                         channel_description = getattr(
                             self.instrument_cfg.hardware_description, output_name
                         )
@@ -237,13 +240,11 @@ class QCMCompiler(BasebandModuleCompiler):
                         )
                         if module_distortion_configs.get(output_number) is None:
                             if isinstance(correction_cfg, HardwareDistortionCorrection):
-                                output_number = int(output_name.split("_")[-1])
                                 module_distortion_configs[output_number] = {
                                     "distortion_corrections": correction_cfg,
                                     "marker_debug_mode_enable": marker_debug_mode_enable,
                                 }
                             elif isinstance(correction_cfg, list):
-                                output_number = 2 * int(output_name.split("_")[-1])
                                 module_distortion_configs[output_number] = {
                                     "distortion_corrections": correction_cfg[0],
                                     "marker_debug_mode_enable": marker_debug_mode_enable,
-- 
2.43.0


From 5fdcefd8b58c57d35d0bb3fa0569778ede1f3a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:04 +0000
Subject: [PATCH 28/45] fix: serialize the reference magnitudes of a device
 element

---
 .../device_under_test/device_element.py               | 11 +++++++++++
 quantify_scheduler/json_utils.py                      |  5 ++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/device_under_test/device_element.py b/quantify_scheduler/device_under_test/device_element.py
index 33f238b..e5e5337 100644
--- a/quantify_scheduler/device_under_test/device_element.py
+++ b/quantify_scheduler/device_under_test/device_element.py
@@ -44,15 +44,22 @@ class DeviceElement(YAMLSerializable, JSONSerializable, Instrument):
         snapshot = self.snapshot()
 
         element_data: dict[str, Any] = {"name": self.name}
+        nested_data: dict[str, dict[str, Any]] = {}
         for submodule_name, submodule_data in snapshot["submodules"].items():
             element_data[submodule_name] = {
                 name: data["value"] for name, data in submodule_data["parameters"].items()
             }
+            # Parameters of the submodules of a submodule (e.g. its reference magnitude).
+            for nested in submodule_data["submodules"].values():
+                nested_data.setdefault(submodule_name, {}).update(
+                    {name: data["value"] for name, data in nested["parameters"].items()}
+                )
 
         state = {
             "deserialization_type": export_python_object_to_path_string(self.__class__),
             "mode": "__init__",
             "data": element_data,
+            "nested_data": nested_data,
         }
         return state
 
@@ -65,6 +72,10 @@ class DeviceElement(YAMLSerializable, JSONSerializable, Instrument):
             element_data[submodule_name] = {
                 name: data["value"] for name, data in submodule_data["parameters"].items()
             }
+            for nested in submodule_data["submodules"].values():
+                element_data[submodule_name].update(
+                    {name: data["value"] for name, data in nested["parameters"].items()}
+                )
 
         return element_data
 
diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index fa85b92..1ec5ca2 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -220,7 +220,10 @@ class SchedulerJSONDecoder(json.JSONDecoder):
                 if class_type == np.ndarray:
                     return np.array(obj["data"])
                 elif issubclass(class_type, Instrument):
-                    return class_type(**obj["data"])
+                    data = dict(obj["data"])
+                    for submodule_name, nested_data in obj.get("nested_data", {}).items():
+                        data[submodule_name] = {**data[submodule_name], **nested_data}
+                    return class_type(**data)
                 else:
                     return class_type(obj["data"])  # type: ignore
 
-- 
2.43.0


From 4ff04ab893af258340ac3d3110cbc3bd20b309d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:04 +0000
Subject: [PATCH 29/45] fix: serialize the scheduling strategy of a quantum
 device

---
 .../device_under_test/quantum_device.py          | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/device_under_test/quantum_device.py b/quantify_scheduler/device_under_test/quantum_device.py
index a7ac381..ac62864 100644
--- a/quantify_scheduler/device_under_test/quantum_device.py
+++ b/quantify_scheduler/device_under_test/quantum_device.py
@@ -140,7 +140,8 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
     def __json_getstate__(self) -> dict[str, Any]:  # type: ignore
         """
         Serializes :class:`~QuantumDevice` into a dict containing serialized :class:`~DeviceElement`
-        and :class:`~Edge` objects plus ``cfg_sched_repetitions``.
+        and :class:`~Edge` objects plus ``cfg_sched_repetitions``, ``keep_original_schedule``
+        and ``scheduling_strategy``.
         """
         data: dict[str, Any] = {"name": self.name}
 
@@ -154,6 +155,8 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
         }
 
         data["cfg_sched_repetitions"] = int(self.cfg_sched_repetitions())
+        data["keep_original_schedule"] = bool(self.keep_original_schedule())
+        data["scheduling_strategy"] = str(self.scheduling_strategy())
 
         state = {
             "deserialization_type": export_python_object_to_path_string(self.__class__),
@@ -173,6 +176,8 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
         data["edges"] = {edge_name: self.get_edge(edge_name) for edge_name in self.edges()}
 
         data["cfg_sched_repetitions"] = int(self.cfg_sched_repetitions())
+        data["keep_original_schedule"] = bool(self.keep_original_schedule())
+        data["scheduling_strategy"] = str(self.scheduling_strategy())
 
         return data
 
@@ -208,6 +213,7 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
             self.add_edge(self._instrument_references[edge_name])
 
         self.cfg_sched_repetitions(int(state["data"]["cfg_sched_repetitions"]))
+        self._set_compilation_options(state["data"])
 
     def __setstate__(self, state: dict[str, Any]) -> None:
         """Set the state of :class:`~QuantumDevice` (used for YAML deserialization)."""
@@ -224,6 +230,14 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
             self.add_edge(self._instrument_references[edge_name])
 
         self.cfg_sched_repetitions(int(state["cfg_sched_repetitions"]))
+        self._set_compilation_options(state)
+
+    def _set_compilation_options(self, data: dict[str, Any]) -> None:
+        """Set the serialized compilation options; older serializations do not have them."""
+        if "keep_original_schedule" in data:
+            self.keep_original_schedule(data["keep_original_schedule"])
+        if "scheduling_strategy" in data:
+            self.scheduling_strategy(data["scheduling_strategy"])
 
     def to_json(self) -> str:
         """
-- 
2.43.0


From 5148df4277ee48900ef21ba55c4279c10862b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 30/45] fix: serialize numpy scalars of any type

---
 quantify_scheduler/json_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index 1ec5ca2..d638055 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -396,6 +396,9 @@ class SchedulerJSONEncoder(json.JSONEncoder):
                     "mode": "__init__",
                     "data": str(o),
                 }
+            elif isinstance(o, np.generic):
+                # Other numpy scalars (e.g. np.float32) become the equivalent Python type.
+                return o.item()
             elif isinstance(o, (np.ndarray,)):
                 return {
                     "deserialization_type": type(o).__name__,
-- 
2.43.0


From d27caca6b1bb8462fd4692fcd1188ae1e6b6ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 31/45] fix: restore the acquisition hardware mapping of a
 compiled schedule

Its keys are no strings and its values dataclasses: after to_json/from_json
no acquisition of a compiled schedule could be retrieved.
---
 .../components/qblox.py                       |  9 +++-
 quantify_scheduler/schedules/schedule.py      | 51 +++++++++++++++++++
 2 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index f9fd078..c338cd3 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -775,11 +775,13 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
             self._set_parameter(self.instrument.sequencers[seq_idx], "sync_en", False)
 
         acq_duration = {}
+        sequencers = {}
         for seq_name, settings in program["sequencers"].items():
             if isinstance(settings, dict):
                 sequencer_settings = AnalogSequencerSettings.from_dict(settings)
             else:
                 sequencer_settings = settings
+            sequencers[seq_name] = sequencer_settings
             if seq_name in self._seq_name_to_idx_map:
                 seq_idx = self._seq_name_to_idx_map[seq_name]
             else:
@@ -804,7 +806,7 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
                 scope_mode_sequencer_and_qblox_acq_index=scope_mode_sequencer_and_qblox_acq_index,
                 acquisition_duration=acq_duration,
                 seq_name_to_idx_map=self._seq_name_to_idx_map,
-                sequencers=program.get("sequencers"),
+                sequencers=sequencers,
                 repetitions=repetitions,
             )
         else:
@@ -1484,6 +1486,9 @@ class _QTMComponent(_ModuleComponentBase):
                     f'with name "{seq_name}".'
                 )
 
+            if isinstance(settings, dict):
+                settings = TimetagSequencerSettings.from_dict(settings)
+
             # 1-1 Sequencer-io_channel coupling,
             # the io_channel settings are inside SequencerSettings
             self._configure_sequencer_settings(seq_idx=seq_idx, settings=settings)
@@ -1504,6 +1509,8 @@ class _QTMComponent(_ModuleComponentBase):
             self._acquisition_manager = None
 
         if (settings := program.get("settings")) is not None:
+            if isinstance(settings, dict):
+                settings = self._hardware_properties.settings_type.from_dict(settings)
             assert isinstance(settings, TimetagModuleSettings)
             self._configure_global_settings(settings)
 
diff --git a/quantify_scheduler/schedules/schedule.py b/quantify_scheduler/schedules/schedule.py
index 1d2a1cb..641d0ff 100644
--- a/quantify_scheduler/schedules/schedule.py
+++ b/quantify_scheduler/schedules/schedule.py
@@ -1024,6 +1024,39 @@ hardware independent acquisition channel data.
 """
 
 
+def _serialize_acq_hardware_mapping(mapping: dict[Hashable, Any]) -> list[dict[str, Any]]:
+    """Store a mapping from acquisition channels (and indices) as lists of keys and values."""
+    return [
+        {"key": k, "value": _serialize_acq_hardware_mapping(v) if isinstance(v, dict) else v}
+        for k, v in mapping.items()
+    ]
+
+
+def _deserialize_acq_hardware_mapping(
+    mapping: list[dict[str, Any]] | dict[Hashable, Any],
+) -> dict[Hashable, Any]:
+    """Restore what was stored by :func:`_serialize_acq_hardware_mapping`."""
+    # Imported here, because the backend depends on this module.
+    from quantify_scheduler.backends.qblox.qblox_acq_index_manager import (
+        QbloxAcquisitionIndexBin,
+    )
+    from quantify_scheduler.backends.types.common import ThresholdedTriggerCountMetadata
+
+    def _value(value: Any) -> Any:  # noqa: ANN401
+        if isinstance(value, list):
+            return _deserialize_acq_hardware_mapping(value)
+        if isinstance(value, dict):
+            metadata = value.pop("thresholded_trigger_count_metadata")
+            if isinstance(metadata, dict):
+                metadata = ThresholdedTriggerCountMetadata(**metadata)
+            return QbloxAcquisitionIndexBin(**value, thresholded_trigger_count_metadata=metadata)
+        return value
+
+    if isinstance(mapping, dict):
+        return mapping
+    return {elem["key"]: _value(elem["value"]) for elem in mapping}
+
+
 class CompiledSchedule(ScheduleBase):
     """
     A schedule that contains compiled instructions ready for execution using the :class:`~.InstrumentCoordinator`.
@@ -1155,6 +1188,18 @@ class CompiledSchedule(ScheduleBase):
                 compiled_instructions[component_key]["acq_channels_data"] = (
                     serialized_acq_channels_data
                 )
+            for module_key, module in dict(component).items():
+                # The keys of the acquisition hardware mappings are not strings either.
+                if isinstance(module, dict) and "acq_hardware_mapping" in module:
+                    if compiled_instructions[component_key] is component:
+                        compiled_instructions[component_key] = copy(component)
+                    compiled_instructions[component_key][module_key] = {
+                        **module,
+                        "acq_hardware_mapping": {
+                            sequencer: _serialize_acq_hardware_mapping(mapping)
+                            for sequencer, mapping in module["acq_hardware_mapping"].items()
+                        },
+                    }
         return state
 
     def __setstate__(self, state: dict[str, Any]) -> None:
@@ -1174,4 +1219,10 @@ class CompiledSchedule(ScheduleBase):
                     for elem in component["acq_channels_data"]
                 }
                 component["acq_channels_data"] = deserialized_acq_channels
+            for module in component.values():
+                if isinstance(module, dict) and "acq_hardware_mapping" in module:
+                    module["acq_hardware_mapping"] = {
+                        sequencer: _deserialize_acq_hardware_mapping(mapping)
+                        for sequencer, mapping in module["acq_hardware_mapping"].items()
+                    }
         super().__setstate__(state)
-- 
2.43.0


From 4ca7cb5e789fbc06273d1da65b232567862a7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:29 +0000
Subject: [PATCH 32/45] fix: refuse integration lengths that are not a multiple
 of the grid time

The check rounded the duration before, so that it never failed.
---
 quantify_scheduler/backends/qblox/analog.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 5411ebc..bda90aa 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -396,13 +396,16 @@ class AnalogSequencerCompiler(SequencerCompiler):
                 continue
 
             acq_duration_ns = round(op_strat.operation_info.duration * 1e9)
-            if acq_duration_ns % constants.GRID_TIME != 0:
-                raise ValueError(
-                    "Attempting to perform square acquisition with a duration of "
-                    f"{acq_duration_ns} ns. Please ensure the duration is a multiple "
-                    f"of {constants.GRID_TIME} ns.\n\nException caused by "
-                    f"{op_strat!r}."
-                )
+            if isinstance(op_strat, SquareAcquisitionStrategy):
+                try:
+                    helpers.to_grid_time(op_strat.operation_info.duration)
+                except ValueError as exc:
+                    raise ValueError(
+                        "Attempting to perform square acquisition with a duration of "
+                        f"{op_strat.operation_info.duration * 1e9} ns. Please ensure the "
+                        f"duration is a multiple of {constants.GRID_TIME} ns.\n\n"
+                        f"Exception caused by {op_strat!r}."
+                    ) from exc
             if integration_length is None:
                 integration_length = acq_duration_ns
             elif integration_length != acq_duration_ns:
-- 
2.43.0


From e9557142ce3b725f3aabb47b79dbee3b89394d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 33/45] Revert "fix: serialize the reference magnitudes of a
 device element"

This reverts commit 5fdcefd8b58c57d35d0bb3fa0569778ede1f3a34.
---
 .../device_under_test/device_element.py               | 11 -----------
 quantify_scheduler/json_utils.py                      |  5 +----
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/quantify_scheduler/device_under_test/device_element.py b/quantify_scheduler/device_under_test/device_element.py
index e5e5337..33f238b 100644
--- a/quantify_scheduler/device_under_test/device_element.py
+++ b/quantify_scheduler/device_under_test/device_element.py
@@ -44,22 +44,15 @@ class DeviceElement(YAMLSerializable, JSONSerializable, Instrument):
         snapshot = self.snapshot()
 
         element_data: dict[str, Any] = {"name": self.name}
-        nested_data: dict[str, dict[str, Any]] = {}
         for submodule_name, submodule_data in snapshot["submodules"].items():
             element_data[submodule_name] = {
                 name: data["value"] for name, data in submodule_data["parameters"].items()
             }
-            # Parameters of the submodules of a submodule (e.g. its reference magnitude).
-            for nested in submodule_data["submodules"].values():
-                nested_data.setdefault(submodule_name, {}).update(
-                    {name: data["value"] for name, data in nested["parameters"].items()}
-                )
 
         state = {
             "deserialization_type": export_python_object_to_path_string(self.__class__),
             "mode": "__init__",
             "data": element_data,
-            "nested_data": nested_data,
         }
         return state
 
@@ -72,10 +65,6 @@ class DeviceElement(YAMLSerializable, JSONSerializable, Instrument):
             element_data[submodule_name] = {
                 name: data["value"] for name, data in submodule_data["parameters"].items()
             }
-            for nested in submodule_data["submodules"].values():
-                element_data[submodule_name].update(
-                    {name: data["value"] for name, data in nested["parameters"].items()}
-                )
 
         return element_data
 
diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index d638055..0e7a236 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -220,10 +220,7 @@ class SchedulerJSONDecoder(json.JSONDecoder):
                 if class_type == np.ndarray:
                     return np.array(obj["data"])
                 elif issubclass(class_type, Instrument):
-                    data = dict(obj["data"])
-                    for submodule_name, nested_data in obj.get("nested_data", {}).items():
-                        data[submodule_name] = {**data[submodule_name], **nested_data}
-                    return class_type(**data)
+                    return class_type(**obj["data"])
                 else:
                     return class_type(obj["data"])  # type: ignore
 
-- 
2.43.0


From d38a1622a26b15d6979703c286b2bc8db4883e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 34/45] Revert "fix: serialize the scheduling strategy of a
 quantum device"

This reverts commit 4ff04ab893af258340ac3d3110cbc3bd20b309d0.
---
 .../device_under_test/quantum_device.py          | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/quantify_scheduler/device_under_test/quantum_device.py b/quantify_scheduler/device_under_test/quantum_device.py
index ac62864..a7ac381 100644
--- a/quantify_scheduler/device_under_test/quantum_device.py
+++ b/quantify_scheduler/device_under_test/quantum_device.py
@@ -140,8 +140,7 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
     def __json_getstate__(self) -> dict[str, Any]:  # type: ignore
         """
         Serializes :class:`~QuantumDevice` into a dict containing serialized :class:`~DeviceElement`
-        and :class:`~Edge` objects plus ``cfg_sched_repetitions``, ``keep_original_schedule``
-        and ``scheduling_strategy``.
+        and :class:`~Edge` objects plus ``cfg_sched_repetitions``.
         """
         data: dict[str, Any] = {"name": self.name}
 
@@ -155,8 +154,6 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
         }
 
         data["cfg_sched_repetitions"] = int(self.cfg_sched_repetitions())
-        data["keep_original_schedule"] = bool(self.keep_original_schedule())
-        data["scheduling_strategy"] = str(self.scheduling_strategy())
 
         state = {
             "deserialization_type": export_python_object_to_path_string(self.__class__),
@@ -176,8 +173,6 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
         data["edges"] = {edge_name: self.get_edge(edge_name) for edge_name in self.edges()}
 
         data["cfg_sched_repetitions"] = int(self.cfg_sched_repetitions())
-        data["keep_original_schedule"] = bool(self.keep_original_schedule())
-        data["scheduling_strategy"] = str(self.scheduling_strategy())
 
         return data
 
@@ -213,7 +208,6 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
             self.add_edge(self._instrument_references[edge_name])
 
         self.cfg_sched_repetitions(int(state["data"]["cfg_sched_repetitions"]))
-        self._set_compilation_options(state["data"])
 
     def __setstate__(self, state: dict[str, Any]) -> None:
         """Set the state of :class:`~QuantumDevice` (used for YAML deserialization)."""
@@ -230,14 +224,6 @@ class QuantumDevice(YAMLSerializable, JSONSerializable, Instrument):
             self.add_edge(self._instrument_references[edge_name])
 
         self.cfg_sched_repetitions(int(state["cfg_sched_repetitions"]))
-        self._set_compilation_options(state)
-
-    def _set_compilation_options(self, data: dict[str, Any]) -> None:
-        """Set the serialized compilation options; older serializations do not have them."""
-        if "keep_original_schedule" in data:
-            self.keep_original_schedule(data["keep_original_schedule"])
-        if "scheduling_strategy" in data:
-            self.scheduling_strategy(data["scheduling_strategy"])
 
     def to_json(self) -> str:
         """
-- 
2.43.0


From 7554ad0278bff61253c48c58cedfd2d1ee57100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:01 +0000
Subject: [PATCH 35/45] fix: accept an offset which starts with a pulse but for
 rounding

---
 quantify_scheduler/backends/qblox_backend.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index d1cb6b1..fe701ff 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -2098,11 +2098,16 @@ def _raise_if_pulses_overlap_on_same_port_clock(
     for port_clock in common_ports:
         start_a, end_a = pulse_start_ends_per_port_a[port_clock]
         start_b, end_b = pulse_start_ends_per_port_b[port_clock]
-        if (
-            start_b < start_a < end_b
-            or start_b < end_a < end_b
-            or start_a < start_b < end_a
-            or start_a < end_b < end_a
+        # Points at the exact start or end of the other pulse do not overlap with it.
+        # Use a margin of 1e-10 for possible floating point errors.
+        if any(
+            start + 1e-10 < time < end - 1e-10
+            for time, start, end in (
+                (start_a, start_b, end_b),
+                (end_a, start_b, end_b),
+                (start_b, start_a, end_a),
+                (end_b, start_a, end_a),
+            )
         ):
             raise RuntimeError(
                 f"{op_a} at t={abs_time_a} and {op_b} at t="
-- 
2.43.0


From bfaa0881112e9f481bc6f782306ddefafaf89e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 36/45] fix: time the body of a pulse compensation as it will
 be played

---
 quantify_scheduler/pulse_compensation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/pulse_compensation.py b/quantify_scheduler/pulse_compensation.py
index b553554..01ae8a2 100644
--- a/quantify_scheduler/pulse_compensation.py
+++ b/quantify_scheduler/pulse_compensation.py
@@ -179,6 +179,7 @@ def _determine_compensation_pulse(
     max_compensation_amp: dict[Port, float],
     time_grid: float,
     sampling_rate: float,
+    config: CompilationConfig | None = None,
 ) -> dict[Port, CompensationPulseParams]:
     """
     Calculates the timing and the amplitude of a compensation pulse for each port.
@@ -202,6 +203,9 @@ def _determine_compensation_pulse(
         Time grid the compensation pulse needs to be on.
     sampling_rate
         Sampling rate of the pulses.
+    config
+        Compilation config for
+        :class:`~quantify_scheduler.backends.graph_compilation.QuantifyCompiler`.
 
     Returns
     -------
@@ -212,11 +216,7 @@ def _determine_compensation_pulse(
     """
     pulses_start_duration_amp: dict[Port, CompensationPulseParams] = {}
 
-    operation_with_abs_times = (
-        operation
-        if not isinstance(operation, Schedule)
-        else _determine_absolute_timing(deepcopy(operation), None)
-    )
+    operation_with_abs_times = _determine_absolute_timing(deepcopy(operation), None, config)
     ports: set[str] = set(max_compensation_amp.keys())
     pulses_sum_end: dict[Port, SumEnd] = _determine_sum_and_end_of_all_pulses(
         operation_with_abs_times, sampling_rate, 0, ports, False
@@ -289,13 +289,14 @@ def process_compensation_pulses(
         return operation
     elif isinstance(operation, PulseCompensation):
         # Inner pulse compensated blocks need to be resolved first.
-        resolved_body = process_compensation_pulses(operation.body)
+        resolved_body = process_compensation_pulses(operation.body, config)
         all_compensation_pulse_params: dict[Port, CompensationPulseParams] = (
             _determine_compensation_pulse(
                 resolved_body,
                 operation.max_compensation_amp,
                 operation.time_grid,
                 operation.sampling_rate,
+                config,
             )
         )
 
-- 
2.43.0


From d9fa787d25ddaf39ff8b4f06d3fb8c64b6284b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:41 +0000
Subject: [PATCH 37/45] fix: pulse compensation with the ALAP scheduling
 strategy

---
 quantify_scheduler/pulse_compensation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/pulse_compensation.py b/quantify_scheduler/pulse_compensation.py
index 01ae8a2..e76d503 100644
--- a/quantify_scheduler/pulse_compensation.py
+++ b/quantify_scheduler/pulse_compensation.py
@@ -9,7 +9,11 @@ from copy import deepcopy
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, overload
 
-from quantify_scheduler.compilation import _determine_absolute_timing
+from quantify_scheduler.compilation import (
+    _determine_absolute_timing,
+    _determine_scheduling_strategy,
+)
+from quantify_scheduler.enums import SchedulingStrategy
 from quantify_scheduler.helpers.waveforms import area_pulse
 from quantify_scheduler.operations.control_flow_library import (
     ConditionalOperation,
@@ -320,5 +324,11 @@ def process_compensation_pulses(
                 ref_pt_new="start",
             )
 
+        if _determine_scheduling_strategy(config) == SchedulingStrategy.ALAP:
+            # Operations without reference refer to the next one; the body refers to none.
+            schedulables = pulse_compensated_schedule.schedulables
+            body_name = first_op_schedulable["name"]
+            schedulables[body_name] = schedulables.pop(body_name)
+
         return pulse_compensated_schedule
     return schedule
-- 
2.43.0


From 5e9a531ba845d73e4edd1474e1b658d161ca6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:52 +0000
Subject: [PATCH 38/45] fix: apply software distortion corrections to a shared
 operation only once

---
 quantify_scheduler/backends/corrections.py | 25 +++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/corrections.py b/quantify_scheduler/backends/corrections.py
index 533b6cd..5e9f47b 100644
--- a/quantify_scheduler/backends/corrections.py
+++ b/quantify_scheduler/backends/corrections.py
@@ -162,14 +162,20 @@ def _is_distortion_correctable(operation: Operation) -> bool:
 
 @overload
 def apply_software_distortion_corrections(
-    operation: Operation, distortion_corrections: dict
+    operation: Operation,
+    distortion_corrections: dict,
+    processed: dict[int, tuple] | None = None,
 ) -> Operation | None: ...
 @overload
 def apply_software_distortion_corrections(
-    operation: Schedule, distortion_corrections: dict
+    operation: Schedule,
+    distortion_corrections: dict,
+    processed: dict[int, tuple] | None = None,
 ) -> None: ...
 def apply_software_distortion_corrections(
-    operation: Operation | Schedule, distortion_corrections: dict
+    operation: Operation | Schedule,
+    distortion_corrections: dict,
+    processed: dict[int, tuple] | None = None,
 ) -> Operation | Schedule | None:
     """
     Apply distortion corrections to operations in the schedule.
@@ -208,6 +214,9 @@ def apply_software_distortion_corrections(
         Note, this function updates the operation.
     distortion_corrections
         The distortion_corrections configuration of the setup.
+    processed
+        The operations processed so far with their replacements, by ``id`` of the operation.
+        Operations that are used more than once are only corrected once.
 
     Returns
     -------
@@ -230,17 +239,22 @@ def apply_software_distortion_corrections(
         when clipping values are supplied but not two values exactly, min and max.
 
     """
+    processed = {} if processed is None else processed
+    if id(operation) in processed:
+        return processed[id(operation)][1]
+    processed[id(operation)] = (operation, None)
+
     if isinstance(operation, ScheduleBase):
         for inner_operation_id in operation.operations:
             replacing_operation = apply_software_distortion_corrections(
-                operation.operations[inner_operation_id], distortion_corrections
+                operation.operations[inner_operation_id], distortion_corrections, processed
             )
             if replacing_operation is not None:
                 operation.operations[inner_operation_id] = replacing_operation
         return None
     elif isinstance(operation, ControlFlowOperation):
         replacing_operation = apply_software_distortion_corrections(
-            operation.body, distortion_corrections
+            operation.body, distortion_corrections, processed
         )
         if replacing_operation is not None:
             operation.body = replacing_operation
@@ -295,5 +309,6 @@ def apply_software_distortion_corrections(
         # required as first entry in pulse_info is used to generate signature in __str__
         if substitute_operation is not None:
             substitute_operation.data["pulse_info"] = operation.data["pulse_info"]
+            processed[id(operation)] = (operation, substitute_operation)
             return substitute_operation
         return None
-- 
2.43.0


From 52ec4bb21968bc83702af3415e2430f37d38df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:49 +0000
Subject: [PATCH 39/45] fix: automatic RF switches around loops and
 conditionals

---
 .../backends/qblox/auto_rf_switch.py          | 91 ++++++++++++++++---
 1 file changed, 80 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index 07b3047..ab521cd 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -114,7 +114,10 @@ def auto_rf_switch_dressing(
     # Using global absolute times ensures pulses across sub-schedule boundaries are
     # merged correctly, and inserting only on the root schedule avoids extending
     # sub-schedule durations.
-    mw_pulses, vo_events = _collect_all_mw_events_recursive(schedule, time_offset=0.0)
+    blocks: list[tuple[float, float, float]] = []
+    mw_pulses, vo_events = _collect_all_mw_events_recursive(
+        schedule, time_offset=0.0, blocks=blocks
+    )
 
     # Convert VoltageOffset on/off pairs to pulse windows and combine with regular pulses
     all_pulses = mw_pulses + _voltage_offset_events_to_pulses(vo_events)
@@ -130,8 +133,7 @@ def auto_rf_switch_dressing(
     # For each port-clock, merge adjacent pulses and insert RF switch operations
     # on the root schedule only.
     for (port, clock), pulses in pulses_by_port_clock.items():
-        pulses_sorted = sorted(pulses, key=lambda p: p.abs_time)
-        windows = _merge_pulses_into_windows(pulses_sorted, ramp_buffer)
+        windows = _determine_windows(pulses, blocks, ramp_buffer)
         for window_start, window_end in windows:
             _insert_rf_switch_operation(
                 schedule=schedule,
@@ -148,6 +150,7 @@ def auto_rf_switch_dressing(
 def _collect_all_mw_events_recursive(
     schedule: Schedule,
     time_offset: float,
+    blocks: list[tuple[float, float, float]] | None = None,
 ) -> tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]:
     """
     Recursively collect microwave pulses and VoltageOffset events from a schedule tree.
@@ -170,6 +173,9 @@ def _collect_all_mw_events_recursive(
         The global absolute time offset for this schedule's schedulables.
         For the root schedule this is ``0.0``; for a nested schedule it is the
         global start time of the sub-schedule schedulable in the parent.
+    blocks
+        If given, the start, the end of the (first execution of the) body, and the end
+        of every control flow operation is appended to this list.
 
     Returns
     -------
@@ -192,20 +198,25 @@ def _collect_all_mw_events_recursive(
         # Global absolute start time of this schedulable
         schedulable_abs_time = time_offset + schedulable.data.get("abs_time", 0.0)
 
+        # The pulses of a control flow operation are those of its body
+        while isinstance(operation, ControlFlowOperation):
+            if blocks is not None:
+                blocks.append(
+                    (
+                        schedulable_abs_time,
+                        schedulable_abs_time + operation.body.duration,
+                        schedulable_abs_time + operation.duration,
+                    )
+                )
+            operation = operation.body
+
         if isinstance(operation, ScheduleBase):
             # Recurse into nested schedule; its internal abs_times are relative to it
             sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                operation, schedulable_abs_time
+                operation, schedulable_abs_time, blocks
             )
             mw_pulses.extend(sub_pulses)
             vo_events.extend(sub_events)
-        elif isinstance(operation, ControlFlowOperation):
-            if isinstance(operation.body, ScheduleBase):
-                sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                    operation.body, schedulable_abs_time
-                )
-                mw_pulses.extend(sub_pulses)
-                vo_events.extend(sub_events)
         else:
             for pulse_info in operation.data.get("pulse_info", []):
                 port = pulse_info.get("port", "")
@@ -444,6 +455,64 @@ def _merge_pulses_into_windows(
     return windows
 
 
+def _determine_windows(
+    pulses: list[MicrowavePulseInfo],
+    blocks: list[tuple[float, float, float]],
+    ramp_buffer: float,
+) -> list[tuple[float, float]]:
+    """
+    Determine the RF switch windows of one port-clock combination.
+
+    The body of a control flow operation is executed any number of times. A window inside
+    the body is repeated with it, but a window that reaches out of the body (including the
+    ramp buffer) is only right when it covers the entire control flow operation.
+
+    Parameters
+    ----------
+    pulses
+        List of microwave pulses.
+    blocks
+        The start, the end of the (first execution of the) body, and the end of every
+        control flow operation.
+    ramp_buffer
+        Buffer time for RF switch.
+
+    Returns
+    -------
+    list[tuple[float, float]]
+        List of (start_time, end_time) tuples for each RF switch window.
+        These times do not include the ramp buffer.
+
+    """
+    atol = 0.5e-9
+
+    def reaches_out(window: tuple[float, float], block: tuple[float, float, float]) -> bool:
+        on, off = window[0] - ramp_buffer, window[1] + ramp_buffer
+        start, body_end, end = block
+        overlaps = on < end + atol and off > start - atol
+        inside = on > start + atol and off < body_end - atol
+        covers = window[0] < start + atol and window[1] > end - atol
+        return overlaps and not inside and not covers
+
+    while True:
+        windows = _merge_pulses_into_windows(
+            sorted(pulses, key=lambda p: p.abs_time), ramp_buffer
+        )
+        block = next((b for b in blocks if any(reaches_out(w, b) for w in windows)), None)
+        if block is None:
+            return windows
+        pulses = [
+            *pulses,
+            MicrowavePulseInfo(
+                schedulable_key="control_flow",
+                abs_time=block[0],
+                duration=block[2] - block[0],
+                port=pulses[0].port,
+                clock=pulses[0].clock,
+            ),
+        ]
+
+
 def _insert_rf_switch_operation(
     schedule: Schedule,
     port: str,
-- 
2.43.0


From 4b1b440ad769dcc247b425c9638c11325cad530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:35 +0000
Subject: [PATCH 40/45] fix: flux pulse of the chevron schedule waits for both
 qubits

---
 quantify_scheduler/schedules/two_qubit_transmon_schedules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/schedules/two_qubit_transmon_schedules.py b/quantify_scheduler/schedules/two_qubit_transmon_schedules.py
index 1936b7c..87c8f7d 100644
--- a/quantify_scheduler/schedules/two_qubit_transmon_schedules.py
+++ b/quantify_scheduler/schedules/two_qubit_transmon_schedules.py
@@ -98,7 +98,7 @@ def chevron_cz_sched(
         )
 
         # Go to |11> <=> |02> avoided crossing and come back
-        sched.add(
+        flux_pulse = sched.add(
             SquarePulse(
                 amp=amp,
                 duration=duration,
@@ -107,6 +107,8 @@ def chevron_cz_sched(
             ),
             label=f"SquarePulse({flux_port}) {acq_index}",
         )
+        # Both qubits are prepared before the flux pulse
+        flux_pulse.add_timing_constraint(ref_schedulable=excite_lf)
 
         # Measure system
         sched.add(
-- 
2.43.0


From 740e71ff5f203be94841924b2a8978b277d53030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:42 +0000
Subject: [PATCH 41/45] fix: descending staircase waveforms, and steps that
 start at a sample

---
 quantify_scheduler/waveforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index da5d7ab..21471ca 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -88,10 +88,11 @@ def staircase(
         duration = float(t[-1] - t[0])
 
     amp_step = (final_amp - start_amp) / (num_steps - 1)
-    waveform = np.floor(t * (num_steps / duration)) * amp_step + start_amp
-    # Replace out of range values with start_amp or final_amp.
+    # The margin is for steps that start at a sample
+    steps = np.floor(t * (num_steps / duration) + 1e-6)
+    # Out of range times are at start_amp or final_amp.
     # In most cases that would only happen when `duration in t`
-    return np.minimum(np.maximum(waveform, start_amp), final_amp)
+    return np.minimum(np.maximum(steps, 0), num_steps - 1) * amp_step + start_amp
 
 
 def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
-- 
2.43.0


From c3cbd1591dea42179a16c8703f008d7418ebecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:42 +0000
Subject: [PATCH 42/45] fix: sudden net zero waveforms of a whole number of
 samples

---
 quantify_scheduler/waveforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 21471ca..4cc34ba 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -346,9 +346,11 @@ def sudden_net_zero(
 
     """
     sampling_rate = t[1] - t[0]
-    single_arm_samples = int(t_pulse / 2 / sampling_rate)
-    mid_samples = int(t_phi / sampling_rate)
-    num_corr_samples = int(t_integral_correction / sampling_rate)
+    # The margin keeps durations of a whole number of samples from losing one
+    margin = 1e-6
+    single_arm_samples = int(t_pulse / 2 / sampling_rate + margin)
+    mid_samples = int(t_phi / sampling_rate + margin)
+    num_corr_samples = int(t_integral_correction / sampling_rate + margin)
 
     if 2 * single_arm_samples + mid_samples + num_corr_samples > len(t):
         raise ValueError(
-- 
2.43.0


From 7857d17f29d374b502d98d9e8103de76e76e1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:42 +0000
Subject: [PATCH 43/45] fix: soft square waveforms of four and five samples

---
 quantify_scheduler/waveforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 4cc34ba..ca8b36c 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -111,7 +111,8 @@ def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
     data = square(t, amp)
     if len(t) > 1:
         window = signal.windows.hann(int(len(t) / 2))
-        data = signal.convolve(data, window, mode="same") / sum(window)
+        if sum(window) > 0:  # a window of two samples is zero
+            data = signal.convolve(data, window, mode="same") / sum(window)
     return data
 
 
-- 
2.43.0


From ab9873af93aba91121f59208ae80f4bd9b0e357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:16 +0000
Subject: [PATCH 44/45] fix: DC offset of a long ramp pulse of constant
 amplitude

---
 .../backends/qblox/operations/pulse_factories.py              | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/pulse_factories.py b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
index 485b1d1..4fd0af3 100644
--- a/quantify_scheduler/backends/qblox/operations/pulse_factories.py
+++ b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
@@ -303,9 +303,7 @@ def long_ramp_pulse(
     # 'UpdateParameters' instruction at the end.
 
     # Insert a 0 offset if offsets were inserted above and the last offset is not 0.
-    if not math.isclose(last_sample_voltage, offset) and not math.isclose(
-        last_sample_voltage - amp_part, 0.0
-    ):
+    if num_whole_parts > 0 and not math.isclose(last_sample_voltage - amp_part, 0.0):
         builder.add_voltage_offset(path_I=0.0, path_Q=0.0)
     builder.add_pulse(
         pulse_library.RampPulse(
-- 
2.43.0


From 383c603fc78e773ea7f45eba4b461c566dfd8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:11 +0000
Subject: [PATCH 45/45] fix: automatic RF switches extend a window to every
 control flow operation once

---
 quantify_scheduler/backends/qblox/auto_rf_switch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index ab521cd..a94a32d 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -501,6 +501,7 @@ def _determine_windows(
         block = next((b for b in blocks if any(reaches_out(w, b) for w in windows)), None)
         if block is None:
             return windows
+        blocks = [b for b in blocks if b != block]
         pulses = [
             *pulses,
             MicrowavePulseInfo(
-- 
2.43.0

