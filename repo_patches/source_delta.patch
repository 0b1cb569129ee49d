From 1681b9329fa70397d6b51e8fe0bca40e059d6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 01/67] fix: apply two-channel gates to the right channels when
 the second channel is 0

_translate_channels_numbers_to_tensor_list swapped by position instead of by
channel for (h, 0) with h >= 2, so the gate acted on other channels.
---
 src/fock_state_circuit/nodes/nodelist/node_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index aa59fdb..dec9c02 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -204,7 +204,9 @@ class NodeList():
                 tensor_list[0], tensor_list[1] = tensor_list[1], tensor_list[0] #swap
             else:
                 tensor_list[0], tensor_list[channel_horizontal] = tensor_list[channel_horizontal],  tensor_list[0]
-                tensor_list[1], tensor_list[channel_vertical] = tensor_list[channel_vertical],  tensor_list[1]  
+                # after the first swap 'channel_vertical' may have moved to another position (if it was channel 0)
+                position_vertical = tensor_list.index(channel_vertical)
+                tensor_list[1], tensor_list[position_vertical] = tensor_list[position_vertical],  tensor_list[1]  
         
         else:
             raise Exception('error creating tensor list, more than two channels provided')
-- 
2.43.0


From e8abcd8f31460688e8ae730e7360bbab3a59ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 02/67] fix: keep the basis in standard order independent of
 look-up history

ComponentNames and OpticalValues treated the cache of single look-ups as the
basis once it had as many entries as the basis, so the basis order (and with
that the fock matrix and the state vectors) depended on the order in which
names had been used. Looking up an invalid name added it to the basis.
---
 .../optical_values_component_names.py         | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 2f18f81..9027f24 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -210,6 +210,7 @@ class ComponentNames():
         self.string_format_in_state_as_word = "{:0"+str(self.digits_per_channel)+ "d}"
         self.tuple_of_strings = tuple(self.string_format_in_state_as_word.format(number) for number in range(self.length_of_fock_state))
         self.size_of_basis = self.length_of_fock_state**self.no_of_optical_channels
+        self.basis_is_generated = False
         return
 
     def __getitem__(self,component_name: str) -> list:
@@ -220,30 +221,40 @@ class ComponentNames():
             component_name_as_integer_tuple = tuple( int(component_name[a:a+self.digits_per_channel]) for a in range(0,len(component_name),self.digits_per_channel))
             if not self.channel_0_left_in_state_name:
                 component_name_as_integer_tuple = tuple(reversed(component_name_as_integer_tuple))
-            self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
-            self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
+            # only store valid states, otherwise looking up an invalid name would add that name to the basis
+            if self._is_valid_state(component_name, component_name_as_integer_tuple):
+                self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
+                self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
             return list(component_name_as_integer_tuple)
+
+    def _is_valid_state(self, component_name: str, values: tuple) -> bool:
+        """ True if the name has the right number of digits and the values represent a valid optical state."""
+        return (len(component_name) == self.digits_per_channel * self.no_of_optical_channels 
+                and min(values) >= 0 
+                and max(values) < self.length_of_fock_state)
         
     def _values_from_index(self, index: int) -> list:
         return [(index//(self.length_of_fock_state**c))%self.length_of_fock_state for c in range(self.no_of_optical_channels)]
         
     def __iter__(self):
         """ Iterator for optical component names as a string"""
-        if len(self.dict_of_valid_component_names) == self.size_of_basis:
-            return iter(self.dict_of_optical_values)
+        # names which are looked up one-by-one are stored in the order of look up, so the full basis has
+        # to be generated once to ensure the states are in standard order
+        if self.basis_is_generated:
+            return iter(self.dict_of_valid_component_names)
 
         self.list_of_fock_states = [self._values_from_index(n)  for n in range(self.length_of_fock_state**self.no_of_optical_channels)]
         if self.channel_0_left_in_state_name == True:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state]):optical_state for optical_state in self.list_of_fock_states}
         else: #self.state_least_significant_digit_left == False:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state[::-1]]):optical_state for optical_state in self.list_of_fock_states}       
+        self.basis_is_generated = True
 
         return iter(self.dict_of_valid_component_names)
     
     def __contains__(self, key: str) -> bool:
         """ True if the componet name (as string) represent a valid optical state."""
-        values = self.__getitem__(key)
-        return len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
+        return self._is_valid_state(key, self.__getitem__(key))
     
     def __len__(self) -> int:
         """ Total number of possible states as number_of_possible_optical_values ^ number_of_optical_channels."""
@@ -393,6 +404,7 @@ class OpticalValues():
         self.string_format_in_state_as_word = component_names.string_format_in_state_as_word
         self.tuple_of_strings = component_names.tuple_of_strings
         self.size_of_basis = component_names.size_of_basis
+        self.basis_is_generated = False
         return
     
     def __getitem__(self,optical_values: Union[list, tuple]) -> str:
@@ -404,14 +416,19 @@ class OpticalValues():
                 component_name = ''.join([self.tuple_of_strings[number] for number in optical_values])                                                                 
             else:
                 component_name = ''.join([self.tuple_of_strings[number] for number in reversed(optical_values)])   
-            self.dict_of_optical_values.update({optical_values: component_name})
-            self.dict_of_valid_component_names.update({component_name: optical_values})
+            # only store valid states, otherwise invalid values would be added to the basis
+            if optical_values in self:
+                self.dict_of_optical_values.update({optical_values: component_name})
+                self.dict_of_valid_component_names.update({component_name: optical_values})
             return component_name
     
     def __iter__(self):
-        if len(self.dict_of_optical_values) == self.size_of_basis:
+        # values which are looked up one-by-one are stored in the order of look up, so the full basis has
+        # to be generated once to ensure the states are in standard order
+        if self.basis_is_generated:
             return iter(self.dict_of_optical_values)
         self.dict_of_optical_values = {tuple(v):k for k,v in self.component_names.items()}      
+        self.basis_is_generated = True
         return iter(self.dict_of_optical_values)
     
     def __len__(self) -> int:
-- 
2.43.0


From fdc4f23f51b456bb4a66d8ea5ffa7a7f01ed3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 03/67] fix: evaluate all nodes in nodes_to_be_evaluated in the
 listed order

Nodes listed after the node with the highest index were silently skipped.
---
 src/fock_state_circuit/circuit.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3126ba1..37c871f 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -328,16 +328,10 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     break
                 else:
                     optical_nodes_list.append(node_index)
-            if max(optical_nodes_list) >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
+            remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
         else:
             current_node_index = nodes_to_be_evaluated[0]
-            if current_node_index >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[1:]
+            remaining_nodes = nodes_to_be_evaluated[1:]
 
         #****************************************************
         #                                                   *
-- 
2.43.0


From 0e969dc27d780bf7c0e7d6772bc00f1df0d156ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 04/67] fix: do not modify the input collection when evaluating
 a circuit

Classical nodes changed the classical channels of the states in the caller's
collection, and optical nodes attached the caller's collection to the circuit.
---
 src/fock_state_circuit/circuit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 37c871f..44acad2 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -378,7 +378,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         # case where next node is of type 'classical' *
         #**********************************************
         elif self.node_list[current_node_index].get('node_type') == 'classical':          
-            for state in collection_of_states_input:
+            # work on a copy to leave the input collection unchanged
+            collection_of_states_output = collection_of_states_input.copy()
+            for state in collection_of_states_output:
                 # read the function from the node_list
                 classical_function = self.node_list[current_node_index].get('function')
 
@@ -388,7 +390,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     self.node_list[current_node_index]['new_input_values'],
                     self.node_list[current_node_index]['affected_channels'])
                 
-            return self.evaluate_circuit(collection_of_states_input = collection_of_states_input, nodes_to_be_evaluated = remaining_nodes)
+            return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
   
         #**********************************************************************
         # case where next node is of type 'measurement'  *
@@ -711,8 +713,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if collection_of_states is None:
             collection_of_states = CollectionOfStates(fock_state_circuit=self)
         else:
-            collection_of_states._fock_state_circuit = self
-            collection_of_states = collection_of_states.copy()
+            collection_of_states = CollectionOfStates(self, {identifier: state.copy() for identifier, state in collection_of_states.items()})
         if self._use_full_fock_matrix == True:
             # if 'use_full_fock_matrix' is set to 'True' we always use the complete matrix. There is no need to group
             # states by photon number.
-- 
2.43.0


From 9f9c9da6f18e9977f22815a9c528ae9177b98174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 05/67] fix: keep measurement results when classical channels
 change later

The measurement history shared the list with the classical channel values, so
a later classical node rewrote the recorded results.
---
 src/fock_state_circuit/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 44acad2..457e5b4 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -678,9 +678,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 new_state.classical_channel_values[n] = outcome[i]
             # 3. the new state's measurement results need to be updated with 
             try:
-                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values, 'probability': tot_prob})   
+                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob})   
             except:
-                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values, 'probability': tot_prob}]
+                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob}]
             new_state.optical_components = {self._dict_of_optical_values[tuple(name[0])]:{'amplitude':new_amplitude,'probability': new_probability} for name, new_amplitude, new_probability in zip(list_of_outcomes,new_amps, new_probs)}
             # 4. Other aspects like initial_state and auxiliary_information remain unchanged
             # add the new state to the collection
-- 
2.43.0


From 53b6650fe1bf162a1443d76dadfeb26851853d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 06/67] fix: do not drop states from a statistical mixture when
 identifiers collide

Uniqueness of the random identifier was checked against the old content of
the collection instead of against the mixture that is being created.
---
 src/fock_state_circuit/collection_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 4e52b8f..069b4e8 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -459,9 +459,9 @@ class CollectionOfStates(Plot):
             initial_state += alphabet[random.randint(0,len(alphabet)-1)]
 
         for state, weight in list_of_tuples_state_weight:
-            # make random identifier which is not yet used in self._collection_of_states.keys()
+            # make random identifier which is not yet used in the mixture
             identifier = 'identifier_' + alphabet[random.randint(0,len(alphabet)-1)]
-            while identifier in self._collection_of_states.keys():
+            while identifier in mixture.keys():
                 identifier += alphabet[random.randint(0,len(alphabet)-1)]
 
             # for initial state use initial state name in first state and copy to all in the mixture
-- 
2.43.0


From 8bd937f69776d80388949e9ec0dfe5bb71066405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/67] fix: time delay, plot and photon resolved/PR
 measurements leave the input collection unchanged

---
 src/fock_state_circuit/nodes/spectral_nodes.py           | 2 +-
 .../popescu_rohrlich_correlations.py                     | 2 +-
 .../temporal_functions.py                                | 9 +++++----
 src/fock_state_circuit/visualization/plot.py             | 2 +-
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/nodes/spectral_nodes.py b/src/fock_state_circuit/nodes/spectral_nodes.py
index e5811eb..1fad33e 100644
--- a/src/fock_state_circuit/nodes/spectral_nodes.py
+++ b/src/fock_state_circuit/nodes/spectral_nodes.py
@@ -310,7 +310,7 @@ class SpectralNodes(NodeList):
                         written with the measurement results.
         """
 
-        coll_of_cols = CollectionOfStateColumns(collection_of_states=collection_of_states)
+        coll_of_cols = CollectionOfStateColumns(collection_of_states=collection_of_states.copy())
         coll_of_cols.split()
         coll_of_cols.single_photon_states()
         coll_of_cols.photon_probability_function = photon_probability_function
diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 6ed9a57..c525379 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -358,7 +358,7 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
 
     for identifier, list_of_states in dict_of_states_group_by_superentanglement_identifier.items():
         intermediate_collection = fsc.CollectionOfStates(fock_state_circuit= collection_of_states._fock_state_circuit,
-                                                         input_collection_as_a_dict={str(n):state for n,state in enumerate(list_of_states)})
+                                                         input_collection_as_a_dict={str(n):state.copy() for n,state in enumerate(list_of_states)})
     
         histo = _measure_collection_with_pr_correlation(intermediate_collection)
         for state in intermediate_collection:
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
index c6ddfee..313ece1 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
@@ -115,7 +115,7 @@ def add_time_delay_generic(collection_of_states: CollectionOfStates, info: dict,
     resulting_collection = collection_of_states.copy()
     resulting_collection.clear()
     
-    collection_by_column = CollectionOfStateColumns(collection_of_states=collection_of_states)
+    collection_by_column = CollectionOfStateColumns(collection_of_states=collection_of_states.copy())
     collection_by_column.split()
     collection_by_column.single_photon_states()
     for state in collection_by_column.by_state():
@@ -197,7 +197,8 @@ def set_pulse_width(collection_of_states: CollectionOfStates, parameters: list)
 
     # check if all channels have to be set, in that case use fast option
     if set(info['channels_to_set_pulse_width']) == set(range(collection_of_states._no_of_optical_channels)):
-
+        # work on a copy to leave the input collection unchanged
+        collection_of_states = collection_of_states.copy()
         for state in collection_of_states:
             # if key 'photon_resolution' does not exist add this key
             if not 'photon_resolution' in state.auxiliary_information.keys():
@@ -218,7 +219,7 @@ def set_pulse_width(collection_of_states: CollectionOfStates, parameters: list)
         resulting_collection = collection_of_states.copy()
         resulting_collection.clear()
         
-        collection_by_column = CollectionOfStateColumns(collection_of_states=collection_of_states)
+        collection_by_column = CollectionOfStateColumns(collection_of_states=collection_of_states.copy())
         collection_by_column.split()
         collection_by_column.single_photon_states()
         for state_old in collection_by_column.by_state():
@@ -313,7 +314,7 @@ def add_quick_time_delay_generic(collection_of_states: CollectionOfStates, info:
     returned_collection = collection_of_states.copy()
     returned_collection.clear()
 
-    collection_of_columns = CollectionOfStateColumns(collection_of_states=collection_of_states)
+    collection_of_columns = CollectionOfStateColumns(collection_of_states=collection_of_states.copy())
     collection_of_columns.split()
 
     interference_group_identifier = 0
diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index ea63572..30db002 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -167,7 +167,7 @@ class Plot():
         resulting_collection.clear()
 
         # step 1: Same as above for full outcomes
-        coll_of_cols = CollectionOfStateColumns(collection_of_states=self)
+        coll_of_cols = CollectionOfStateColumns(collection_of_states=self.copy())
         coll_of_cols.split()
         
         # step 2: Per group consolidate in new state without photon resolution
-- 
2.43.0


From 64dcb9fdd60fcce20310208967838af12028f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 08/67] fix: apply control-target pairs of c_shift and
 channel_coupling in the listed order

---
 src/fock_state_circuit/nodes/custom_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index f97fafb..38dad72 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -440,7 +440,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
@@ -526,7 +526,7 @@ class CustomNodes(NodeList):
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.sqrt(np.cdouble((1-coupling_strength))*(1 + 0*1j))
                     else:
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.cdouble(0)
-            coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combintation)
+            coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combintation, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
-- 
2.43.0


From c1c9ceb7d7bcf3621f8f73dcda2e6a205bd01b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 09/67] fix: raise the announced exception for invalid channels
 in shift, c_shift and channel_coupling

---
 src/fock_state_circuit/nodes/custom_nodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 38dad72..fe2375b 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -189,12 +189,12 @@ class CustomNodes(NodeList):
         error = False
         if len(shift_per_channel) == len(target_channels):
             for shift, target in zip(shift_per_channel, target_channels):
-                if min(shift, target) < 0 or target > self._no_of_optical_channels:
+                if target < 0 or target >= self._no_of_optical_channels:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.shift')
+            raise Exception('Error in channel input for function FockStateCircuit.shift')
 
         this_is_first_round = True  
         # for each channel create a transition matrix
@@ -412,14 +412,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.c_shift')
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift')
             
         
         this_is_first_round = True  
@@ -491,14 +491,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.channel_coupling')
+            raise Exception('Error in channel input for function FockStateCircuit.channel_coupling')
             
         
         # the coupling matrix is pre-filled as identity matrix
-- 
2.43.0


From bdb1454d941e38e6bc74005fc30defc0b46c959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 10/67] fix: correlations and outcome names when channel 0 is
 on the right in the state name

---
 src/fock_state_circuit/visualization/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index 30db002..fa12910 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -195,9 +195,9 @@ class Plot():
             str: name of the state of component derived from photon number per channel. e.g., '013'
         """        
         string_format_in_state_as_word = "{:0"+str(len(str(self._length_of_fock_state-1)))+ "d}"
-        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
         if self._channel_0_left_in_state_name == False:
-            name = name[::-1]
+            state = state[::-1]
+        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
         return name
     
     def _create_list_of_values_from_name(self, name: str) -> list:
@@ -211,6 +211,8 @@ class Plot():
             end = start + len(str(self._length_of_fock_state-1))
             values.append(int(name[start:end]))
             start = end
+        if self._channel_0_left_in_state_name == False:
+            values = values[::-1]
         return values
     
 
-- 
2.43.0


From 43667959a7f29995d6d5e31fdcf4260af7c942b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 11/67] fix: keep the threshold probability when a collection
 is extended, reduced or changed in length

---
 src/fock_state_circuit/collection_of_states.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 069b4e8..f1c1e5e 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -777,7 +777,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = self._length_of_fock_state, 
                                 no_of_optical_channels = len(optical_channels_to_keep), 
                                 no_of_classical_channels= len(classical_channels_to_keep),
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         
         new_collection_of_states = CollectionOfStates(fock_state_circuit=updated_circuit)
@@ -866,7 +867,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = new_length_of_fock_state, 
                                 no_of_optical_channels = self._no_of_optical_channels, 
                                 no_of_classical_channels= self._no_of_classical_channels,
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
@@ -1006,7 +1008,8 @@ class CollectionOfStates(Plot):
         updated_circuit  = NodeList(length_of_fock_state = self._length_of_fock_state, 
                         no_of_optical_channels = self._no_of_optical_channels+extra_optical_channels,
                         no_of_classical_channels= self._no_of_classical_channels+extra_classical_channels,
-                        channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                        channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                        threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                         )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
-- 
2.43.0


From d56e71076926e6e18153e475ac047ed3c94b00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 12/67] fix: keep print_only_last_measurement when copying a
 collection

---
 src/fock_state_circuit/collection_of_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index f1c1e5e..921da36 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -603,7 +603,7 @@ class CollectionOfStates(Plot):
             CollectionOfStates: new collection of states with identical values and parameters as the original
         """        
         if empty_template:
-            return CollectionOfStates(self._fock_state_circuit, dict([]))
+            new_collection = CollectionOfStates(self._fock_state_circuit, dict([]))
         else:
             new_selection_of_states = dict([])
             for identifier,state in self._collection_of_states.items():
@@ -611,7 +611,9 @@ class CollectionOfStates(Plot):
                 new_state = state.copy()
                 new_selection_of_states.update({new_state_identifier : new_state})
 
-            return CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+            new_collection = CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
+        new_collection.print_only_last_measurement = self.print_only_last_measurement
+        return new_collection
               
     
     def generate_allowed_components_names_as_list_of_strings(self) -> list:
-- 
2.43.0


From 6a4bb28e09763f6648dd73ae30f47c34927c17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 13/67] fix: reduce() also changes the number of channels of an
 empty collection

---
 src/fock_state_circuit/collection_of_states.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 921da36..3a58f80 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -834,13 +834,13 @@ class CollectionOfStates(Plot):
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
 
 
-            #self = new_collection_of_states.copy()
-            self._fock_state_circuit = new_collection_of_states._fock_state_circuit
-            self._collection_of_states = new_collection_of_states.collection_as_dict()
-            self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
-            self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
-            self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
-            self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
+        #self = new_collection_of_states.copy()
+        self._fock_state_circuit = new_collection_of_states._fock_state_circuit
+        self._collection_of_states = new_collection_of_states.collection_as_dict()
+        self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
+        self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
+        self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
+        self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
 
         return 
     
-- 
2.43.0


From 078fb427a1390b0a3da5365c3d5afbe973cbed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 14/67] fix: detect invalid states and identifiers when
 validating a collection

---
 src/fock_state_circuit/collection_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 3a58f80..0be53c5 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -528,7 +528,9 @@ class CollectionOfStates(Plot):
         if not type(collection_of_states_as_dictionary) == type(dict([])):
             return False     
         for identifier, state in collection_of_states_as_dictionary.items():
-            if not type(identifier) == type('name') and isinstance(state, State) and bool(state):
+            if not type(identifier) == type('name'):
+                return False
+            if not isinstance(state, dict) and not (isinstance(state, State) and bool(state)):
                 return False
         return True
     
-- 
2.43.0


From 5761367fa046dc512b5a70927ebe203eb0e9b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 15/67] fix: add amplitudes of repeated components in
 State.tensor

---
 src/fock_state_circuit/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 9afb1d9..c922877 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -686,6 +686,8 @@ class State():
                         new_comp = comp1 + comp2
                     else:
                         new_comp = comp2 + comp1
+                    if new_comp in new_optical_components.keys():
+                        new_amp = new_amp + new_optical_components[new_comp]['amplitude']
                     new_optical_components.update({new_comp: {'amplitude': new_amp, 'probability': np.abs(new_amp)**2 }})
             return new_optical_components
         
-- 
2.43.0


From 4dd133effd0853ef2a7222d7783c4a8daf869223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 16/67] fix: do not reject a cumulative probability that
 exceeds 1 by rounding only

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index c922877..c8c85fb 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -191,7 +191,7 @@ class State():
        
     @cumulative_probability.setter
     def cumulative_probability(self, probability: float):
-        if not 0 <= probability <= 1:
+        if not -self._threshold_probability_for_setting_to_zero <= probability <= 1 + self._threshold_probability_for_setting_to_zero:
             print(probability)
             raise Exception('Invalid value for probability')
         self.state['cumulative_probability'] = probability  
-- 
2.43.0


From c4a706c0488fbe3ddcb34b7ccddac7b7cc3f804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 17/67] fix: evaluating an empty circuit without input returns
 the default collection

---
 src/fock_state_circuit/circuit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 457e5b4..900fe95 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -300,6 +300,10 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         Returns:
             CollectionOfStates : collection of states as output of the circuit
         """        
+        # if no state is given as input use initial collection of states 
+        if collection_of_states_input is None:
+            collection_of_states_input = CollectionOfStates(self)
+
         # if nodes_to_be_evaluated == ['all'] make a list with all indices in node_list
         if nodes_to_be_evaluated == ['all']:
             nodes_to_be_evaluated = list(range(len(self.node_list)))
@@ -313,10 +317,6 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             for node_index in nodes_to_be_evaluated:
                 if not (0 <= node_index < len(self.node_list)) :
                     raise Exception('Invalid list of node indices in function evaluate_circuit')
-        
-        # if no state is given as input use initial collection of states 
-        if collection_of_states_input is None:
-            collection_of_states_input = CollectionOfStates(self)
 
         # check how many of the upcoming nodes are of type 'optical'. They will be evaluated in one step
         # other node types are evaluates one-by-one
-- 
2.43.0


From a6979c92af4467ea7e8fb62803a2bedcbbcfbad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 18/67] fix: one history entry per photon resolved measurement
 and unambiguous outcomes

---
 .../interference_group.py                                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 22f8fc8..f27206d 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -935,7 +935,7 @@ class InterferenceGroup():
             if list_of_projections is not None and not optical_component in list_of_projections:
                 continue
             values = column._column_as_tuple_of_values
-            partial_outcome = "".join([str(values[channel]) for channel in optical_channels_to_measure])
+            partial_outcome = tuple([values[channel] for channel in optical_channels_to_measure])
             try:
                 columns_with_this_partial_outcome[partial_outcome].append(column)
             except:
@@ -968,7 +968,7 @@ class InterferenceGroup():
                 for index, value in enumerate(values_to_measure):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability_for_partial_outcome})  
+                state.measurement_results.append({'measurement_results':state.classical_channel_values.copy(), 'probability': probability_for_partial_outcome})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
-- 
2.43.0


From 5503805fcd2d7fabf8cd95a5fdf974f91e587556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 19/67] fix: clean_up removes components with low probability
 also when no rescaling is needed

---
 src/fock_state_circuit/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index c8c85fb..5cbba77 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -588,6 +588,10 @@ class State():
                 if new_probability >= self._threshold_probability_for_setting_to_zero:
                     new_oc.update({component : {'amplitude':new_amplitude ,'probability': new_probability}})
             self.state['optical_components'] = new_oc 
+        else:
+            # only remove the components that were set to zero
+            self.state['optical_components'] = {component : amplitude_probability for component, amplitude_probability in oc.items()
+                                                if amplitude_probability['probability'] >= self._threshold_probability_for_setting_to_zero}
 
         return
     
-- 
2.43.0


From 41d02a72c0334f297177f228515ca096ff97586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 20/67] fix: copying a state also copies the values in the
 measurement results

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 5cbba77..a146d2f 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -429,7 +429,7 @@ class State():
                             'cumulative_probability' : self.state['cumulative_probability'],
                             'optical_components' : { name:amp_prob.copy() for name, amp_prob in self.state['optical_components'].items() }, 
                             'classical_channel_values' : self.state['classical_channel_values'].copy(),
-                            'measurement_results' : [{k:v for k,v in m_result.items()} for m_result in self.state['measurement_results']]
+                            'measurement_results' : [{k:(v.copy() if isinstance(v, list) else v) for k,v in m_result.items()} for m_result in self.state['measurement_results']]
                             }
         auxiliary_information = self.state.get('auxiliary_information', None)
 
-- 
2.43.0


From d08ce328544e13c760d40ad1707effe55dac6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 21/67] fix: states created by extend() and reduce() do not
 share history and auxiliary information

---
 src/fock_state_circuit/collection_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 0be53c5..4cb6bf1 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -816,6 +816,7 @@ class CollectionOfStates(Plot):
             
             # calculate for the resulting optical component the amplitude and probability
             for traced_out_value, new_optical_components in dict_by_traced_out_values.items():
+                old_state = old_state.copy()
                 cumulative_probability = 0
                 for amplitude_probability in new_optical_components.values():
                     cumulative_probability += np.abs(amplitude_probability['amplitude'])**2
@@ -1037,6 +1038,7 @@ class CollectionOfStates(Plot):
         # for each existing state create a statistical mixture for possible values in new channels
         for probability, values in extra_channel_values.values():
             for old_state in self._collection_of_states.values():
+                old_state = old_state.copy()
                 optical_components = old_state['optical_components']
                 new_optical_components = dict([])
                 for component_name, amplitude_probability in optical_components.items():
-- 
2.43.0


From d2fb5e890a6ce97acf8a3ba96c37ea2fe763a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 22/67] fix: remove the classical channels when bridging to a
 circuit without classical channels

---
 src/fock_state_circuit/collection_of_states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 4cb6bf1..818a53c 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -739,7 +739,7 @@ class CollectionOfStates(Plot):
         return dictionary_with_return_values
         
     def reduce(self, optical_channels_to_keep: list[int] = [],
-                classical_channels_to_keep: list[int] = []
+                classical_channels_to_keep: list[int] = None
                 ) -> None:
         """ Reduces the number of optical and/or classical channels. 
 
@@ -752,7 +752,8 @@ class CollectionOfStates(Plot):
 
             Args:
                 optical_channels_to_keep (list): list of optical channel numbers that should remain
-                classical_channels_to_keep (list): list of classical channel numbers that should remain
+                classical_channels_to_keep (list): list of classical channel numbers that should remain. Defaults to None, in that
+                    case all classical channels remain. With an empty list all classical channels are removed.
            
             Returns:
                 Nothing. The 'collection of states' will be modified in-place.
@@ -769,7 +770,7 @@ class CollectionOfStates(Plot):
         
         if optical_channels_to_keep == []:
             optical_channels_to_keep  = [*range(self._no_of_optical_channels)]
-        if classical_channels_to_keep ==  []:
+        if classical_channels_to_keep is None:
             classical_channels_to_keep  = [*range(self._no_of_classical_channels)]
 
         if not all([channel in [*range(self._no_of_optical_channels)] for channel in optical_channels_to_keep]):
-- 
2.43.0


From 92cd95e0fe0d022d658a27c7c8fbe8efc153ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 23/67] fix: bridge between circuits with different naming
 conventions keeps the optical state

---
 src/fock_state_circuit/circuit.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 900fe95..6873b07 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -569,6 +569,17 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 collection_of_states_reshaped.reduce(classical_channels_to_keep=classical_to_keep)
 
             collection_of_states_reshaped.adjust_length_of_fock_state(new_length)
+            # if the next circuit uses the other naming convention translate the names of the optical components
+            if next_fock_state_circuit._channel_0_left_in_state_name != collection_of_states_reshaped._channel_0_left_in_state_name:
+                collection_of_states_renamed = CollectionOfStates(next_fock_state_circuit, input_collection_as_a_dict=dict([]))
+                for identifier, state in collection_of_states_reshaped.items():
+                    new_optical_components = dict([])
+                    for name, amp_prob in state.optical_components.items():
+                        values = collection_of_states_reshaped._dict_of_valid_component_names[name]
+                        new_optical_components.update({next_fock_state_circuit._dict_of_optical_values[tuple(values)] : amp_prob})
+                    new_state = State(collection_of_states_renamed, state.state | {'optical_components' : new_optical_components})
+                    collection_of_states_renamed.add_state(state = new_state, identifier = identifier)
+                collection_of_states_reshaped = collection_of_states_renamed
             collection_of_states_output = next_fock_state_circuit.evaluate_circuit(collection_of_states_input = collection_of_states_reshaped)
             #return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
             return collection_of_states_output
-- 
2.43.0


From 5fa2d2bb3fed46fe0f766a7d89b3d14c32cd464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 24/67] fix: compound circuits created without list do not
 share their list of circuits

---
 src/fock_state_circuit/compound_circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/compound_circuit.py b/src/fock_state_circuit/compound_circuit.py
index 843ce50..e2bab94 100644
--- a/src/fock_state_circuit/compound_circuit.py
+++ b/src/fock_state_circuit/compound_circuit.py
@@ -47,7 +47,7 @@ class CompoundFockStateCircuit:
     _VERSION = '1.0.0'
 
     def __init__(self, 
-                 list_of_circuits: list = [],
+                 list_of_circuits: list = None,
                  compound_circuit_name: str = None
                 ):
         ''' Constructor for an instance of the class CompoundFockStateCircuit. The instance will be created the list_of_circuits passed as argument. 
@@ -58,7 +58,7 @@ class CompoundFockStateCircuit:
             compound_circuit_name (str, optional): Defaults to '' 
         '''
 
-        self.list_of_circuits = list_of_circuits
+        self.list_of_circuits = list_of_circuits if list_of_circuits is not None else []
         if compound_circuit_name is None:
             self.compound_circuit_name = FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS.get('compound_circuit_title','Optical circuit')
         else:
-- 
2.43.0


From 898686ac0ede8f11616841e7d37c753b46173502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 25/67] fix: reject channel numbers just outside the circuit in
 classically controlled nodes

---
 src/fock_state_circuit/nodes/controlled_nodes.py       | 8 ++++----
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 8372f76..3317bf3 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift > self._no_of_classical_channels:
+        if classical_channel_for_phase_shift >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift > self._no_of_optical_channels:
+        if optical_channel_to_shift >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -129,9 +129,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index f7b6fd1..3690a48 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -145,9 +145,9 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
-- 
2.43.0


From c60eb2837cc7227a6ed8904125e336da544f8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 26/67] fix: printing a circuit without a name

---
 src/fock_state_circuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 6873b07..3239755 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -264,7 +264,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         Returns:
             str: string describing the circuit
         """ 
-        text = 'FockStateCircuit name: ' + self._circuit_name + '\n'
+        text = 'FockStateCircuit name: ' + str(self._circuit_name) + '\n'
         text += 'Optical Channels: ' + str(self._no_of_optical_channels) + '\n'
         text += 'Classical Channels: ' + str(self._no_of_classical_channels) + '\n'
         text += 'Length of Fock state: ' + str(self._length_of_fock_state) + '\n'
-- 
2.43.0


From 21d6b196e544fb20a323f646e2541819ecfdb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 27/67] fix: do not reject states for rounding errors when the
 threshold probability is very small

---
 src/fock_state_circuit/state.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index a146d2f..1098cde 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -116,6 +116,10 @@ class State():
     
     _KEYS_IN_STATE = ['initial_state', 'cumulative_probability', 'optical_components', 'measurement_results', 'classical_channel_values', 'auxiliary_information']
 
+    # amplitudes are calculated in single precision, so probabilities can exceed the range [0,1] by rounding, also if
+    # the threshold for setting a probability to zero is smaller than that
+    _ROUNDING_TOLERANCE = 1e-5
+
     def __init__(self, collection_of_states : any, input_state_as_a_dict: dict = None):
         """ Constructor for in instance of class "State". The state instance will be created in initialized form.
 
@@ -191,7 +195,8 @@ class State():
        
     @cumulative_probability.setter
     def cumulative_probability(self, probability: float):
-        if not -self._threshold_probability_for_setting_to_zero <= probability <= 1 + self._threshold_probability_for_setting_to_zero:
+        tolerance = max(self._threshold_probability_for_setting_to_zero, self._ROUNDING_TOLERANCE)
+        if not -tolerance <= probability <= 1 + tolerance:
             print(probability)
             raise Exception('Invalid value for probability')
         self.state['cumulative_probability'] = probability  
@@ -397,7 +402,8 @@ class State():
             float(cumulative_probability)
         except:
             return (False,'Invalid state: invalid type for cumulative probability')
-        if cumulative_probability < -self._threshold_probability_for_setting_to_zero or cumulative_probability -1 > self._threshold_probability_for_setting_to_zero:
+        tolerance = max(self._threshold_probability_for_setting_to_zero, self._ROUNDING_TOLERANCE)
+        if cumulative_probability < -tolerance or cumulative_probability -1 > tolerance:
             return (False,'Invalid state: invalid value for cumulative probability')
         if type(optical_components) != type(dict([])):
             return (False,'Invalid state"optical components is not a dictionary')
@@ -407,7 +413,7 @@ class State():
             try:
                 amplitude = np.cdouble(o_values['amplitude'])
                 probability = float(o_values['probability'])
-                if probability < -1*self._threshold_probability_for_setting_to_zero or probability > 1+self._threshold_probability_for_setting_to_zero:
+                if probability < -tolerance or probability > 1+tolerance:
                     return (False,'Invalid state: invalid probability of optical component')
             except:
                 return (False,'Invalid state: issue with optical components')
-- 
2.43.0


From 83e8afbc86ce0476b93589dbeaf9e2089d4c46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 28/67] fix: shift_direct and c_shift_direct do not share
 amplitudes with the input collection

---
 src/fock_state_circuit/nodes/custom_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index fe2375b..fd370a5 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -286,7 +286,7 @@ class CustomNodes(NodeList):
                     for shift, target in zip(shift_per_channel, target_channels):
                         values[target] = (values[target] + shift)%state._length_of_fock_state
                     new_component = state._dict_of_optical_values[tuple(values)]
-                    new_oc.update({new_component:amp_prob})
+                    new_oc.update({new_component:amp_prob.copy()})
                 new_state.optical_components = new_oc
                 output_collection.add_state(new_state)
             return output_collection
@@ -353,7 +353,7 @@ class CustomNodes(NodeList):
                     for control, target in zip(control_channels, target_channels):
                         values[target] = (values[target] + values[control])%state._length_of_fock_state
                     new_component = state._dict_of_optical_values[tuple(values)]
-                    new_oc.update({new_component:amp_prob})
+                    new_oc.update({new_component:amp_prob.copy()})
                 new_state.optical_components = new_oc
                 output_collection.add_state(new_state)
             return output_collection
-- 
2.43.0


From 735f65163227856414ed8b5831b8d4b7f47cf968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 29/67] fix: a hamiltonian operator gate on several channels
 can be drawn

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 3690a48..80cce7a 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -21,7 +21,7 @@ class QuantumOperatorNodes(NodeList):
 
         node_info = {
                     'label' : "Hamiltonian",
-                    'channels_optical' : [channels],
+                    'channels_optical' : list(channels),
                     'markers' : ['s'],
                     'markercolor' : ['purple'],
                     'markerfacecolor' : ['grey'],
-- 
2.43.0


From 53998cfb027ac22fd050aa77b229307eef6c6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 30/67] fix: the exponential of a Hamiltonian is also correct
 for large angles

---
 .../quantum_operators.py                               | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index cc3c9b5..024bb32 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -182,10 +182,14 @@ class QuantumOperator:
         """
         transition_matrices_list = []
         for matrix in self._matrices:
-            transition_matrix = np.identity(n=matrix.shape[0], dtype=np.csingle)
+            # the expansion only converges for matrices with a small norm, so calculate exp(H) as exp(H/2**m)**(2**m)
+            norm = np.linalg.norm(matrix, ord=1)
+            no_of_squarings = max(0, math.ceil(math.log2(norm))) if norm > 0 else 0
+            scaled_matrix = matrix.astype(np.cdouble) / 2**no_of_squarings
+            transition_matrix = np.identity(n=matrix.shape[0], dtype=np.cdouble)
             for n in range(1,self.power_for_exponent_taylor_expansion):
-                transition_matrix = transition_matrix + (1/math.factorial(n))* np.linalg.matrix_power(matrix,n)
-            transition_matrices_list.append(transition_matrix)
+                transition_matrix = transition_matrix + (1/math.factorial(n))* np.linalg.matrix_power(scaled_matrix,n)
+            transition_matrices_list.append(np.linalg.matrix_power(transition_matrix, 2**no_of_squarings).astype(np.csingle))
         return transition_matrices_list 
     
     def _combine_operators(self) -> np.ndarray:
-- 
2.43.0


From a4b852acdec75a69597f3f974c7826573343f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 31/67] fix: a statistical mixture takes the initial state name
 from its first state, as documented

---
 src/fock_state_circuit/collection_of_states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 818a53c..e8c8f18 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -454,9 +454,7 @@ class CollectionOfStates(Plot):
         """        
         mixture = dict([])
         alphabet = list(string.ascii_lowercase) + [str(i) for i in range(10)]
-        initial_state = 'mixture-'
-        for _ in range(5):
-            initial_state += alphabet[random.randint(0,len(alphabet)-1)]
+        initial_state = None
 
         for state, weight in list_of_tuples_state_weight:
             # make random identifier which is not yet used in the mixture
@@ -467,6 +465,8 @@ class CollectionOfStates(Plot):
             # for initial state use initial state name in first state and copy to all in the mixture
 
             if bool(state):
+                if initial_state is None:
+                    initial_state = state.initial_state
                 state.cumulative_probability = weight
                 state.initial_state = initial_state
                 mixture.update({identifier : state})
-- 
2.43.0


From 7dcce10a191c85638a415805fef2db6faded8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 32/67] fix: a statistical mixture does not change the states
 it is made of, the same state can be used twice

---
 src/fock_state_circuit/collection_of_states.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index e8c8f18..8101a58 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -467,6 +467,7 @@ class CollectionOfStates(Plot):
             if bool(state):
                 if initial_state is None:
                     initial_state = state.initial_state
+                state = state.copy()
                 state.cumulative_probability = weight
                 state.initial_state = initial_state
                 mixture.update({identifier : state})
-- 
2.43.0


From d1437204da3e97adee360a13dd93dc0f4517a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 33/67] fix: collection_from_dict accepts dictionary states,
 keeps its own dictionary and reports success

---
 src/fock_state_circuit/collection_of_states.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 8101a58..a882650 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -502,9 +502,16 @@ class CollectionOfStates(Plot):
         Returns:
             bool: True if dictionary is valid, otherwise false.
         """
-        if self.__check_valid_dictionary(collection_of_states_as_dictionary):
-            self._collection_of_states = collection_of_states_as_dictionary
-        return
+        if not self.__check_valid_dictionary(collection_of_states_as_dictionary):
+            return False
+        new_collection_of_states = dict([])
+        for identifier, state in collection_of_states_as_dictionary.items():
+            if isinstance(state, State):
+                new_collection_of_states.update({identifier : state})
+            else:
+                new_collection_of_states.update({identifier : State(self,input_state_as_a_dict=state)})
+        self._collection_of_states = new_collection_of_states
+        return True
     
     def __bool__(self) -> bool:
         """ Private function to check whether the collection of states is a valid collection.
-- 
2.43.0


From 9656f7a76be48e7d4f96f49e29f063e669da0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 34/67] fix: each Hamiltonian of a quantum operator acts on its
 own operator channels

---
 .../quantum_operator_functionality/quantum_operators.py  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index 024bb32..18a0401 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -99,11 +99,13 @@ class QuantumOperator:
             We create the class as frozen, so as immutable. We want to run calculations at initialization to ensure we do the calculation only once. Because this is a 
             'frozen' dataclass we need to use settattr to be able to modify the arguments (so it looks more complex than it actually is)
         """
-        object.__setattr__(self, 'operator_channels', self.hamiltonians[0].operator_channels)
+        # every hamiltonian has its own operator channels, the limited basis covers the channels of all of them
+        operator_channels = [channel for hamiltonian in self.hamiltonians for channel in hamiltonian.operator_channels]
+        object.__setattr__(self, 'operator_channels', operator_channels)
         lim_basis_to_values, lim_basis_to_index = self._generate_limited_basis(self.operator_channels, self.length_of_fock_state)
         object.__setattr__(self, '_lim_basis_to_values', lim_basis_to_values)
         object.__setattr__(self, '_lim_basis_to_index', lim_basis_to_index)
-        matrices = [self._generate_limited_matrix(hamiltonian.operators, self.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
+        matrices = [self._generate_limited_matrix(hamiltonian.operators, hamiltonian.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
         object.__setattr__(self, '_matrices', matrices)
         object.__setattr__(self, '_transition_matrices_list', self._exponentiaze())
         object.__setattr__(self, '_transition_matrix', self._combine_operators())
@@ -152,8 +154,7 @@ class QuantumOperator:
         Returns:
             ndarray: Matrix representing the effect of the operator.
         """
-        number_of_channels = len(set(operator_channels))
-        matrix_size = length_of_fock_state**number_of_channels
+        matrix_size = len(self._lim_basis_to_values)
         matrix = np.zeros((matrix_size,matrix_size), np.csingle)
         for index, values in self._lim_basis_to_values.items():
             for operator in operators:
-- 
2.43.0


From 3d9f91fb22964e9e5430ae9df8aabc4f673ca8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 35/67] fix: pulse width set before the first time delay does
 not crash the evaluation

---
 .../collection_of_state_columns.py                            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 067dff0..90f5eb3 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -95,8 +95,8 @@ class CollectionOfStateColumns():
             # in the dict 'collection by column'. If they do not have this information we create a new interference group, with a single 
             # column for every state in the collection.
  
-            # check if state has 'photon_resolution' information
-            if 'photon_resolution' in state.auxiliary_information.keys():
+            # check if state has 'photon_resolution' information (if only the pulse width was set there is no interference group yet)
+            if 'interference_group_identifier' in state.auxiliary_information.get('photon_resolution', dict([])).keys():
                 interference_group_id = state.auxiliary_information['photon_resolution']['interference_group_identifier']
                 if interference_group_id not in self.collection_by_column[initial_state].keys():
                     # create a new interference group with a new column for this state
-- 
2.43.0


From dae29c154ab7dfac1f2fbf195237f245d605b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 36/67] fix: Popescu-Rohrlich pair with quantumness 1 equals an
 entangled pair also for elliptical polarization

---
 .../popescu_rohrlich_correlations.py                           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index c525379..ba831ab 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -322,6 +322,9 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
         for box_number, quantumness_indicator in enumerate(quantumness_indicators):
             vector1 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][0]][0]
             vector2 = PR_amplitudes.stokes_vectors[PR_amplitudes.photon_indices_per_pair[box_number][1]][0]
+            # the photons are created as 'hh' + 'vv', so photon B is found in the complex conjugate of the polarization found
+            # for photon A: circular polarization (the x-coordinate of the Stokes vector) has opposite handedness
+            vector2 = [-vector2[0], vector2[1], vector2[2]]
             alignment_probability = _probability_from_stokes_vectors(vector1, vector2,quantumness_indicator)
             probability = probability*alignment_probability
       
-- 
2.43.0


From 6f5a3c074675f2f948e825d7a2247ea239dc7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 37/67] fix: rounding errors do not turn into Popescu-Rohrlich
 correlation for perpendicular settings

---
 .../popescu_rohrlich_correlations.py                          | 4 ++++
 .../popescu_rohrlich_photon_pair_amplitude_functionality.py   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index ba831ab..0ac316c 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -108,6 +108,10 @@ def _probability_from_stokes_vectors(vector1, vector2,quantumness_value: int = 1
     # If this angle is zero the probability is 1, if this angle is 180 degree the probability is zero
     # 180 degree on Poincare sphere is 90 degree between polarization orientation, so orthogonal
     probability_amplitude = np.inner(vector1,vector2)/np.sqrt(np.inner(vector1,vector1)*np.inner(vector2,vector2))
+    # vectors that are perpendicular apart from rounding errors give no correlation, without this the rounding error
+    # would be blown up by the power 1/quantumness_value
+    if np.abs(probability_amplitude) < 1e-6:
+        probability_amplitude = 0.0
     sign = np.sign(probability_amplitude)
     probability_amplitude = sign*np.power(sign*probability_amplitude,1/quantumness_value)
 
diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
index 4807451..7fc957e 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
@@ -178,7 +178,7 @@ class PopescuRohrlichPhotonPairAmplitudes():
         """
         
         dimensions = len(list(input_dictionary.keys())[0])
-        resulting_matrix = np.zeros(shape=tuple([4]*dimensions),dtype=np.csingle)
+        resulting_matrix = np.zeros(shape=tuple([4]*dimensions),dtype=np.cdouble)
         for label,value in input_dictionary.items():
             coordinates = tuple([int(c) for c in label])
             resulting_matrix[coordinates] = value
-- 
2.43.0


From a51f48871f92c1ec4e37917550b5459ebb5c8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 38/67] fix: set_state_components_from_vector does not change
 the vector of the caller

---
 src/fock_state_circuit/state.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 1098cde..f10a002 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -560,9 +560,8 @@ class State():
         """        
         optical_components = dict([])
         for index, value in enumerate(state_vector):
-            # if value is below threshold set to zero
+            # if value is below threshold leave out this component (the vector itself belongs to the caller and is not changed)
             if np.abs(value)**2 < self._threshold_probability_for_setting_to_zero:
-                state_vector[index] = 0
                 continue
             amplitude = state_vector[index]
             component = self._dict_of_valid_component_names.at_index(index)
-- 
2.43.0


From 53a347fbb6031e31077796b9a89dd16bbc65bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 39/67] fix: shift_direct and c_shift_direct reject channel
 lists that do not match the circuit

---
 src/fock_state_circuit/nodes/custom_nodes.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index fd370a5..c5e332f 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -258,6 +258,14 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        # check if lists with channel numbers are ok, otherwise throw exception
+        error = len(shift_per_channel) != len(target_channels)
+        for target in target_channels:
+            if target < 0 or target >= self._no_of_optical_channels:
+                error = True
+        if error:
+            raise Exception('Error in channel input for function FockStateCircuit.shift_direct')
+
         if node_info == None: node_info = {}
         node_info = {
             'label' : "shift",
@@ -324,6 +332,16 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        # check if lists with channel numbers are ok, otherwise throw exception
+        error = len(control_channels) != len(target_channels)
+        for control, target in zip(control_channels,target_channels):
+            if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
+                error = True
+            if control == target:
+                error = True
+        if error:
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift_direct')
+
         if node_info == None: node_info = {}
         node_info = {
                 'label' : "c-shift",
-- 
2.43.0


From 55d5d4c317c17efee6af6a9b7bac8e83fff89ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 40/67] fix: set_classical_channels and classically controlled
 nodes reject negative channel numbers

---
 src/fock_state_circuit/nodes/classical_nodes.py        |  3 ++-
 src/fock_state_circuit/nodes/controlled_nodes.py       | 10 ++++++----
 src/fock_state_circuit/nodes/quantum_operator_nodes.py |  6 ++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/nodes/classical_nodes.py b/src/fock_state_circuit/nodes/classical_nodes.py
index 5684acb..b7915e6 100644
--- a/src/fock_state_circuit/nodes/classical_nodes.py
+++ b/src/fock_state_circuit/nodes/classical_nodes.py
@@ -109,7 +109,8 @@ class ClassicalNodes(NodeList):
         """
         conditions = [
             len(list_of_values_for_classical_channels) != len(list_of_classical_channel_numbers),
-            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels
+            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels,
+            min(list_of_classical_channel_numbers) < 0
             ]
         if any(conditions):
             raise Exception('Incorrect input in function set_classical_channels')
diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 3317bf3..879b2fa 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift >= self._no_of_classical_channels:
+        if classical_channel_for_phase_shift >= self._no_of_classical_channels or classical_channel_for_phase_shift < 0:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift >= self._no_of_optical_channels:
+        if optical_channel_to_shift >= self._no_of_optical_channels or optical_channel_to_shift < 0:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -129,9 +129,11 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
+        if (max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels
+                or min(classical_channel_for_phase_shift, classical_channel_for_orientation) < 0):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
+        if (max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels
+                or min(optical_channel_horizontal, optical_channel_vertical) < 0):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 80cce7a..bf4425c 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -145,9 +145,11 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
+        if (max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels
+                or min(classical_channel_for_phase_shift, classical_channel_for_orientation) < 0):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
+        if (max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels
+                or min(optical_channel_horizontal, optical_channel_vertical) < 0):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
-- 
2.43.0


From d61def684ed83449972bec73a41f836913423be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 41/67] fix: beamsplitter with invalid channels is not partly
 added to the circuit

---
 src/fock_state_circuit/nodes/optical_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 59dc40b..abaaabd 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -292,6 +292,8 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check the channels for the second node before the first node is added, invalid channels should not lead to half a beamsplitter
+        self._translate_channels_numbers_to_tensor_list(channel_numbers = [input_channels_a[1], input_channels_b[1]])
         self.mix_generic_refl_transm(
             first_channel = input_channels_a[0], 
             second_channel = input_channels_b[0], 
@@ -745,6 +747,8 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check the channels for the second node before the first node is added, invalid channels should not lead to half a beamsplitter
+        self._translate_channels_numbers_to_tensor_list(channel_numbers = [input_channels_a[1], input_channels_b[1]])
         self.mix_50_50(first_channel = input_channels_a[0], second_channel = input_channels_b[0], node_info = node_info_0)
         self.mix_50_50(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info_1)
         return
-- 
2.43.0


From cb4ac25693136468533c4aba02faf301b4a1c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 42/67] fix: custom_optical_node rejects every matrix that is
 not 2x2, as documented

---
 src/fock_state_circuit/nodes/custom_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index c5e332f..c829956 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -131,7 +131,7 @@ class CustomNodes(NodeList):
                 'fillstyle' : 'full'
             }|node_info
  
-        if len(matrix_optical) != 2 and len(matrix_optical[0]) != 2:
+        if len(matrix_optical) != 2 or len(matrix_optical[0]) != 2:
             raise Exception('Only optical nodes with 2-channel interaction are implemented')
         channel_numbers = optical_channels
         tensor_list = self._translate_channels_numbers_to_tensor_list(channel_numbers = channel_numbers)
-- 
2.43.0


From cc508e60e660b4f6b9f6245e02d4b840e77a1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 43/67] fix: component names with signs, spaces or other
 non-digits are not valid

---
 .../nodes/nodelist/optical_values_component_names.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 9027f24..dd9f2bd 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -230,6 +230,7 @@ class ComponentNames():
     def _is_valid_state(self, component_name: str, values: tuple) -> bool:
         """ True if the name has the right number of digits and the values represent a valid optical state."""
         return (len(component_name) == self.digits_per_channel * self.no_of_optical_channels 
+                and component_name.isascii() and component_name.isdigit()
                 and min(values) >= 0 
                 and max(values) < self.length_of_fock_state)
         
-- 
2.43.0


From f20110159bc327fb06f2c29eebdc46ede647d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 44/67] fix: a state with component names outside the circuit
 is not a valid state

---
 src/fock_state_circuit/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index f10a002..7a1ef27 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -411,6 +411,8 @@ class State():
             if type(o_component) != type('name') or type(o_values) != type(dict([])):
                 return (False,'Invalid state: issue with optical component label')
             try:
+                if not o_component in self._dict_of_valid_component_names:
+                    return (False,'Invalid state: optical component label does not match the circuit')
                 amplitude = np.cdouble(o_values['amplitude'])
                 probability = float(o_values['probability'])
                 if probability < -tolerance or probability > 1+tolerance:
-- 
2.43.0


From 94a247d10976142b0e830ed410b7987db9145a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 45/67] fix: generic mixing reflects and transmits with the
 given probabilities

---
 src/fock_state_circuit/nodes/optical_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index abaaabd..5744944 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -664,7 +664,8 @@ class OpticalNodes(NodeList):
             raise Exception(
                 'For generic mixing the sum or reflection and transmission has to be 1 and both have to between 0 and 1 (including)'
                 )
-        theta = math.atan2(math.sqrt(reflection),math.sqrt(transmission))
+        # half the mixing angle, the optical matrix then is [sqrt(reflection), sqrt(transmission)], [sqrt(transmission), -sqrt(reflection)]
+        theta = math.atan2(math.sqrt(transmission),math.sqrt(reflection))/2
         self.__apply_generic_rotation_2_channels(first_channel, second_channel, theta = theta, phi = math.pi, node_info = node_info)
         return
     
-- 
2.43.0


From 67d0dc1bcfcf6aea519a5edc4e7246784da36f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 46/67] fix: generic mixing accepts reflection and transmission
 that add up to 1 within rounding

---
 src/fock_state_circuit/nodes/optical_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 5744944..a79a32e 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -660,7 +660,7 @@ class OpticalNodes(NodeList):
                     'markersize' : 20,
                     'fillstyle' : 'full'
                 }|node_info
-        if reflection + transmission != 1:
+        if not math.isclose(reflection + transmission, 1):
             raise Exception(
                 'For generic mixing the sum or reflection and transmission has to be 1 and both have to between 0 and 1 (including)'
                 )
-- 
2.43.0


From cca1703ae1c1af5b9f9e787a7cb459f4a9f93c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 47/67] fix: draw single and oversized combined gates as
 individual nodes

---
 src/fock_state_circuit/visualization/draw.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6b9456f..7bc3450 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -141,6 +141,7 @@ class Draw():
         if len(self.node_list) == 0:
             raise Exception('Error drawing empty circuit. Circuits need to contain at least one node')
         
+        nodes_to_be_drawn_individually = 0 # remaining nodes of a combined node which is too large (or is a single node)
         for node_index, node in enumerate(self.node_list):
             # for backward compatibility:
             if node['node_info'] is not None:
@@ -213,13 +214,18 @@ class Draw():
                     else:
                         number_of_combined_nodes += 1
 
-                nodes_occupied_by_combined_node = number_of_combined_nodes//2
+                nodes_occupied_by_combined_node = (1+ number_of_combined_nodes)//2
                 # if combined node does not fit on a page treat it as individual nodes (combined node is too large)
-                if (number_of_combined_nodes//2) > len(compound_circuit_settings['node_x_values']):
-                    this_is_a_combined_node = False
+                if nodes_occupied_by_combined_node > len(compound_circuit_settings['node_x_values']):
+                    nodes_to_be_drawn_individually = number_of_combined_nodes
                 # if combined node is a single node treat it as a single node
                 if number_of_combined_nodes <= 1:
-                    this_is_a_combined_node = False
+                    nodes_to_be_drawn_individually = number_of_combined_nodes
+
+            if nodes_to_be_drawn_individually > 0:
+                nodes_to_be_drawn_individually -= 1
+                this_is_a_combined_node = False
+                this_is_first_of_a_combined_node = False
 
             # create a number which in binary format has a 1 for occupied channels and 0 otherwise, this is used to determine
             # whether we can draw nodes on the same x-location (if the nodes do not overlap this makes the circuit drawing more
-- 
2.43.0


From 46294bfa269d27e704a402c5dc3925ca32ffd22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 48/67] fix: combined gate that ends at the end of a line is
 drawn on that line

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 7bc3450..7593926 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -345,7 +345,7 @@ class Draw():
                     # add node in next position after the already occupied node positions
                     page_number_first_combined_node, node_number_on_page_first_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']), len(compound_circuit_settings['node_x_values']))
                     nodes_occupied_by_combined_node = (1+ number_of_combined_nodes)//2 # 0 -> 0, 1->1,  2-> 1, 3 -> 2, 4->2, ....
-                    page_number_last_combined_node, node_number_on_page_last_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']) + nodes_occupied_by_combined_node, len(compound_circuit_settings['node_x_values']))
+                    page_number_last_combined_node, node_number_on_page_last_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']) + nodes_occupied_by_combined_node - 1, len(compound_circuit_settings['node_x_values']))
                     page_number = page_number_last_combined_node
 
                     # check if full combined nodes still fits on the page, otherwise move everything to next page
-- 
2.43.0


From 5d01c08883ae03655d2f9ab9f3a80123800fcf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 49/67] fix: draw combined gates with one node position per
 line

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 7593926..7256552 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -363,7 +363,7 @@ class Draw():
                   
                     # generate the x-values for all nodes in the combined node
                     combined_node_x_values = []
-                    node_spacing = compound_circuit_settings['node_x_values'][1]-compound_circuit_settings['node_x_values'][0]
+                    node_spacing = compound_circuit_settings['spacing_between_nodes']
                     node_x_original_first_node_in_compound = compound_circuit_settings['node_x_values'][node_number_on_page_first_combined_node]
                     if number_of_combined_nodes%2 == 0: #case for even number of nodes
                         shift_combined_node = (-1/4)*node_spacing
-- 
2.43.0


From e0cd6be1d2f99fa034567cf9a542f0dcac5842b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 50/67] fix: draw_station draws the stations in the given list

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 7256552..92f77fe 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1102,7 +1102,7 @@ class Draw():
         elif not isinstance(stations['station_to_draw'],list):
             station_list = [stations['station_to_draw']]
         else: 
-            station_list = list(stations['station_channels'].keys())
+            station_list = list(stations['station_to_draw'])
 
         # create the settings for drawing stations for this circuit
         settings_for_drawing_station = self.create_settings_for_drawing_stations(stations,settings_for_drawing_circuit)
-- 
2.43.0


From da27dcd0710f1ebf38ca0f14626ceece03cb0f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:50 +0000
Subject: [PATCH 51/67] fix: an unrecognised key in node_info is reported and
 ignored when drawing

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 92f77fe..7704ac8 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -162,7 +162,7 @@ class Draw():
             # for some items we need a list if you want to mark the node different per channel (i.e., a target and a control channel)
             # if there is no list given we artificially make the list by adding the 0th element to the end
             for item_needing_list in current_node_info.keys():
-                if type(Draw._NODE_DRAW_DEFAULT_SETTINGS[item_needing_list]) == type([]) and len(Draw._NODE_DRAW_DEFAULT_SETTINGS[item_needing_list])>0:
+                if type(Draw._NODE_DRAW_DEFAULT_SETTINGS.get(item_needing_list)) == type([]) and len(Draw._NODE_DRAW_DEFAULT_SETTINGS[item_needing_list])>0:
                     maximum_needed_list_length = len(current_node_info['channels_optical']) + len(current_node_info['channels_classical'])
                     if type(current_node_info[item_needing_list]) == type([]) and len(current_node_info[item_needing_list]) == 0 :
                         current_node_info[item_needing_list] = [Draw._NODE_DRAW_DEFAULT_SETTINGS[item_needing_list][0]]*maximum_needed_list_length
-- 
2.43.0


From 6b41b7ef64526ecc080d3f550281cb4cdc76329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 52/67] fix: markers set per channel stay with their channel in
 the drawing of a station

---
 src/fock_state_circuit/visualization/draw.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 7704ac8..6f44338 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1226,6 +1226,15 @@ class Draw():
             # create node_info for the local node in the circuit for the local station
             local_node_info = deepcopy(original_node['node_info'])
             local_node_info.update({'channels_optical' : new_optical_channels, 'channels_classical' : new_classical_channels})
+            # settings given per channel stay with their channel
+            original_optical_positions = [original_optical_channels.index(number) for number in optical_channels_for_this_station if number in original_optical_channels]
+            original_classical_positions = [original_classical_channels.index(number) for number in classical_channels_for_this_station if number in original_classical_channels]
+            for key, values in local_node_info.items():
+                if key not in Draw._NODE_DRAW_DEFAULT_SETTINGS.keys() or 'marker' not in key and key != 'fillstyle':
+                    continue
+                if isinstance(values, list) and len(values) > 0:
+                    positions = original_classical_positions if key.startswith('classical') else original_optical_positions
+                    local_node_info[key] = [values[position] if position < len(values) else values[0] for position in positions]
             local_node_info.update({'connections_to_other_stations' : {'classical' : [], 'optical': [], 'optical_and_classical' : []}})
 
             # split up the different cases
-- 
2.43.0


From fd2e15d08eaeecefee8db4619ccb1363a29921cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:52 +0000
Subject: [PATCH 53/67] fix: a node with its channels under the key 'channels'
 is shown in the drawing of its stations

---
 src/fock_state_circuit/visualization/draw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6f44338..68ea8a0 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1216,6 +1216,8 @@ class Draw():
         # modify the 'original node' from the total circuit to become a 'local node' in the circuit for the local station
         for node_index, original_node in enumerate(self.node_list):
             # get the original channels (the numbers in the total circuit) for this node
+            if 'channels' in original_node['node_info'].keys(): # for backward compatibility
+                original_node['node_info'].update({'channels_optical' : original_node['node_info'].pop('channels')})
             original_optical_channels = original_node['node_info'].get('channels_optical',[])
             original_classical_channels = original_node['node_info'].get('channels_classical',[])
 
-- 
2.43.0


From a66b3b23449388541608b9dc354adfee4768659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 54/67] fix: combined gate that ends at the end of a line,
 without moving other combined gates

---
 src/fock_state_circuit/visualization/draw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 68ea8a0..d3ad512 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -345,7 +345,9 @@ class Draw():
                     # add node in next position after the already occupied node positions
                     page_number_first_combined_node, node_number_on_page_first_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']), len(compound_circuit_settings['node_x_values']))
                     nodes_occupied_by_combined_node = (1+ number_of_combined_nodes)//2 # 0 -> 0, 1->1,  2-> 1, 3 -> 2, 4->2, ....
-                    page_number_last_combined_node, node_number_on_page_last_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']) + nodes_occupied_by_combined_node - 1, len(compound_circuit_settings['node_x_values']))
+                    page_number_last_combined_node, node_number_on_page_last_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']) + nodes_occupied_by_combined_node, len(compound_circuit_settings['node_x_values']))
+                    if node_number_on_page_first_combined_node == 0: # a gate which fills the line stays on this line
+                        page_number_last_combined_node = page_number_first_combined_node
                     page_number = page_number_last_combined_node
 
                     # check if full combined nodes still fits on the page, otherwise move everything to next page
-- 
2.43.0


From a2f97f36434510ca8700322581316d72bd75d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 55/67] fix: print_only_last_measurement also applies to the
 states already in a collection

---
 src/fock_state_circuit/collection_of_states.py | 15 +++++++++++++--
 src/fock_state_circuit/state.py                |  4 +++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index a882650..a502063 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -310,7 +310,7 @@ class CollectionOfStates(Plot):
 
         # parameter use for __str__. With print_only_last_measurement set to True only last measurement is printed. With False the
         # complete history is printed.
-        self.print_only_last_measurement = True
+        self._print_only_last_measurement = True
         
         # create a dict with as keys the valid state names as strings and the list of photon numbers as value
         self._dict_of_valid_component_names = fock_state_circuit._dict_of_valid_component_names
@@ -334,6 +334,17 @@ class CollectionOfStates(Plot):
                 if isinstance(state, dict):
                     self._collection_of_states.update({identifier : State(self,input_state_as_a_dict=state)})
 
+    @property
+    def print_only_last_measurement(self) -> bool:
+        return self._print_only_last_measurement
+
+    @print_only_last_measurement.setter
+    def print_only_last_measurement(self, print_only_last_measurement: bool):
+        # the setting also has to reach the states which are already in the collection
+        self._print_only_last_measurement = print_only_last_measurement
+        for state in self._collection_of_states.values():
+            state._print_only_last_measurement = print_only_last_measurement
+
     def __repr__(self) -> str:
         text = f'CollectionOfStates("{self._fock_state_circuit}","{self._input_collection_as_a_dict}")'
         return text
@@ -622,7 +633,7 @@ class CollectionOfStates(Plot):
                 new_selection_of_states.update({new_state_identifier : new_state})
 
             new_collection = CollectionOfStates(self._fock_state_circuit, new_selection_of_states)
-        new_collection.print_only_last_measurement = self.print_only_last_measurement
+        new_collection._print_only_last_measurement = self._print_only_last_measurement
         return new_collection
               
     
diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 7a1ef27..6684a51 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -445,7 +445,9 @@ class State():
         if auxiliary_information:
             new_state_as_a_dict.update({'auxiliary_information' : copy.deepcopy(self.state['auxiliary_information'])})
 
-        return State(self._collection_of_states, new_state_as_a_dict )
+        new_state = State(self._collection_of_states, new_state_as_a_dict )
+        new_state._print_only_last_measurement = self._print_only_last_measurement
+        return new_state
     
         # This is an earlier implementation which looks slower but we measure very marginal performance differences.
         # new_initial_state = "{:s}".format(self.state['initial_state'])
-- 
2.43.0


From db6d8e2c2570c5e110e6d4703115361af2983f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:54 +0000
Subject: [PATCH 56/67] fix: a column added with a given identifier carries
 that identifier

---
 .../interference_group.py                                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index f27206d..57094ce 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -416,6 +416,8 @@ class InterferenceGroup():
             self._interference_group_dict[self._next_new_column_identifier] = column
             return
         else:
+            column.column_identifier = column_identifier
+            column.interference_group_identifier = self.interference_group_identifier
             self._interference_group_dict[column_identifier] = column
             return
             
-- 
2.43.0


From 4e7a319449087dc9ebd13ecd8ebc5f52193e385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:54 +0000
Subject: [PATCH 57/67] fix: total_probability_for_group_all_outcomes
 determines the components of the columns itself

---
 .../interference_group.py                              | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 57094ce..d96a21e 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -854,13 +854,9 @@ class InterferenceGroup():
             dict: Dictionary of form {projection:probability}
         """
         outcomes_and_their_probabilities = dict([])
-        if list_of_projections is None:
-            # determine all possible outcomes
-            list_of_outcomes = []
-            for column in self.by_column():
-                list_of_outcomes.append(column.generate_optical_component_corresponding_to_column(use_stored_values=True))
-            list_of_outcomes = set(list_of_outcomes)
-        else:
+        # determine the optical component for all columns (this stores the values for later use) and from that all possible outcomes
+        list_of_outcomes = set([column.generate_optical_component_corresponding_to_column() for column in self.by_column()])
+        if list_of_projections is not None:
             list_of_outcomes = list_of_projections
         
         for outcome in list_of_outcomes:
-- 
2.43.0


From caa2e743caadce3784fd365fd902d19b383a2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:54 +0000
Subject: [PATCH 58/67] fix: a state without column identifier can be added to
 an interference group when the pulse width is set

---
 .../interference_group.py                                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index d96a21e..ce21e8d 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -443,7 +443,7 @@ class InterferenceGroup():
             column_identifier (int, optional): Identifier for the column to which state should be added. Defaults to None.
         """
         
-        if 'photon_resolution' not in state.auxiliary_information.keys() and column_identifier is None:
+        if 'column_identifier' not in state.auxiliary_information.get('photon_resolution', dict([])).keys() and column_identifier is None:
             # create a new column_of_states and add that to the interference_group
             self.add_column(column = ColumnOfStates(state=state))
   
-- 
2.43.0


From 3fded9a1f615e92c55fd93645d8d9796ea32ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:54 +0000
Subject: [PATCH 59/67] fix: states with a thousand optical components can be
 split

---
 .../interference_group.py                     | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index ce21e8d..5614b7b 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -511,22 +511,16 @@ class InterferenceGroup():
             #'group_cumulative_probability' will still be one.
         
         """
-        found_column_to_split = False
-        for column in self:
+        list_of_columns_to_split = list(self.by_column())
+        while len(list_of_columns_to_split) > 0:
+            column = list_of_columns_to_split[0]
             result = column.split()
-            if result is None: # if column.split() returns None the column already had only single component states
-                continue
+            if result is None: # if column.split() returns None the column has only single component states
+                list_of_columns_to_split.pop(0)
             else:
                 self.add_column(result)
-                found_column_to_split = True
-                break
-        # If a column has been split make a recursive call to this same function, if no column has been split
-        # (i.e., if all columns already were columns with only single-component states) return nothing.
-        if found_column_to_split:
-            self.split_columns()
-            return
-        else:
-            return
+                list_of_columns_to_split.append(result)
+        return
         
     def single_photon_states(self) -> None:
         """ Expand all columns in the interference group into single photon states.
-- 
2.43.0


From 5faa0331c2f247f51c037f401dda14b29a60c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:54 +0000
Subject: [PATCH 60/67] fix: an empty collection of columns generates an empty
 collection of states

---
 .../collection_of_state_columns.py                          | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
index 90f5eb3..447abcf 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/collection_of_state_columns.py
@@ -195,11 +195,9 @@ class CollectionOfStateColumns():
 
     def generate_collection_of_states(self) -> any:
         """ Returns a collection of states from the collection of time columns."""
-        new_collection_of_states = None
+        new_collection_of_states = self._collection_of_states.copy()
+        new_collection_of_states.clear()
         for state in self.by_state():
-            if new_collection_of_states is None:
-                new_collection_of_states = state._collection_of_states.copy()
-                new_collection_of_states.clear()
             new_collection_of_states.add_state(state.copy())
 
         return new_collection_of_states
-- 
2.43.0


From fa9ab443bf6eb0c8254de5f43529c65c42a7fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 61/67] fix: expanding states with several optical components
 into photons raises the documented error

---
 .../column_of_states.py                                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 76deb49..7a4892f 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -528,7 +528,7 @@ class ColumnOfStates():
 
         """
         # check is all states have a single optical component
-        if not self.all_states_single_optical_component:
+        if any([len(state.optical_components) != 1 for state in self]):
             raise Exception('in function split_in_single_photon_states the input collection should only have states with a single optical component')
         
         # this list will contain the single photon states
-- 
2.43.0


From c72eb4c5b61333cd85f22e41ea8277ba42f4b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 62/67] fix: the phase of a state with a single component is
 kept when its column is split

---
 .../column_of_states.py                                      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 7a4892f..2b83736 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -456,6 +456,11 @@ class ColumnOfStates():
         new_column = None
         for index, state in enumerate(self.list_of_states):
             if len(state.optical_components) == 1:
+                # the amplitude of a single component (for instance a phase) is part of the amplitude of the column
+                component, amp_prob = list(state.optical_components.items())[0]
+                if amp_prob['amplitude'] != 1:
+                    self.column_amplitude *= amp_prob['amplitude']
+                    state.optical_components = [(component,1)]
                 continue
             else:
                 # We identified a state which has to be 
-- 
2.43.0


From 66cd906e59ca0f988e6bfbc09d7593945e250368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:04 +0000
Subject: [PATCH 63/67] fix: use the threshold passed to
 are_all_photon_pairs_factorable

---
 .../popescu_rohrlich_photon_pair_amplitude_functionality.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
index 7fc957e..a16d60e 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_photon_pair_amplitude_functionality.py
@@ -271,7 +271,7 @@ class PopescuRohrlichPhotonPairAmplitudes():
         """
         all_factorable = True
         for amplitudes in self.reproduced_vectors:
-            all_factorable &= self.is_photon_pair_factorable(amplitudes)
+            all_factorable &= self.is_photon_pair_factorable(amplitudes, threshold)
         return all_factorable
     
 
-- 
2.43.0


From 9dd03f31d995569cc1b44d82d3917eaa259c08c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:04 +0000
Subject: [PATCH 64/67] fix: detect entanglement within a Popescu-Rohrlich
 pair, and do not take amplitudes set to zero for entanglement

---
 .../popescu_rohrlich_correlations.py                  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 0ac316c..bd66347 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -302,6 +302,10 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
     # histogram will be return in format {'output_state' : outcome, 'probability' : probability}
     histogram = []
 
+    # amplitudes are calculated in single precision, so they are not exact if the threshold is (almost) zero
+    threshold_probability = max(collection._threshold_probability_for_setting_to_zero, 1e-12)
+    cumulative_probability = max(state.cumulative_probability for state in collection)
+
     # per outcome adjust the probability based on configurations of ns-boxes
     # dict_of_configs_and_amps is a dictionary for a specific outcome, with as keys the 
     # configurations that contribute to that outcome as values the amplitude of that
@@ -313,8 +317,11 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
         PR_amplitudes = PopescuRohrlichPhotonPairAmplitudes(input_dictionary=dict_of_configs_and_amps)
 
         # first check if we can determine the state of the individual photons. If the overall state
-        # is entangled this is not possible and we have to stop
-        if not PR_amplitudes.is_dict_factorable() and PR_amplitudes.are_all_photon_pairs_factorable():
+        # is entangled this is not possible and we have to stop. Amplitudes with a probability below the 
+        # threshold have been set to zero in the states, so a deviation up to that level is no entanglement
+        probability_set_to_zero = 4**len(quantumness_indicators) * threshold_probability * cumulative_probability
+        threshold_ppm = max(100.0, 1000000 * np.sqrt(probability_set_to_zero / PR_amplitudes.overall_probability))
+        if not (PR_amplitudes.is_dict_factorable(threshold_ppm) and PR_amplitudes.are_all_photon_pairs_factorable(threshold_ppm)):
             raise Exception("Cannot calculate Popescu_Rohrlich correlation since entanglement has been generated")
 
         # initialize the probability for this outcome from the total amplitudes. This is the highest
-- 
2.43.0


From e4584131250b09384c8f1de3e95cc4b63e1b4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:04 +0000
Subject: [PATCH 65/67] fix: skip outcomes without amplitude when measuring
 Popescu-Rohrlich correlations

---
 .../popescu_rohrlich_correlations.py                          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index bd66347..91d2551 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -310,6 +310,10 @@ def _measure_collection_with_pr_correlation(collection: CollectionOfStates) -> l
     # dict_of_configs_and_amps is a dictionary for a specific outcome, with as keys the 
     # configurations that contribute to that outcome as values the amplitude of that
     for outcome, dict_of_configs_and_amps in configurations_and_amplitudes_grouped_per_outcome.items():
+        # without a threshold the states contain all components, also the ones which cannot be detected
+        if not any(dict_of_configs_and_amps.values()):
+            continue
+
         # the class PopescuRohrlichPhotonPairAmplitudes handles the 'unraveling' of the total state
         # into the states of the individual photons and their polarization and indicates
         # whether the state is 'entangled' of not. First creat the instance for this
-- 
2.43.0


From 3b65d388798032fa2b50455a36b4077f7f626c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:22 +0000
Subject: [PATCH 66/67] fix: nodes keep the values they are created with when
 the caller changes its lists or matrices afterwards

---
 src/fock_state_circuit/circuit.py                |  2 +-
 src/fock_state_circuit/nodes/custom_nodes.py     |  4 ++--
 .../nodes/nodelist/node_list.py                  | 16 +++++++++++++++-
 .../nodes/quantum_operator_nodes.py              |  2 +-
 src/fock_state_circuit/nodes/spectral_nodes.py   | 10 +++++-----
 .../nodes/superquantum_nodes.py                  |  4 ++--
 6 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3239755..1e9255c 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -970,7 +970,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 np.array: fock_state_matrix
         """
         if len(nodes_to_be_evaluated) == 1 and self.node_list[nodes_to_be_evaluated[0]].get('node_type') == 'custom fock matrix':
-            return  self.node_list[nodes_to_be_evaluated[0]].get('custom_fock_matrix')
+            return  self._copy_of_values(self.node_list[nodes_to_be_evaluated[0]].get('custom_fock_matrix'))
       
         fock_matrix, list_of_state_indices_to_keep = self.__generate_fock_state_matrix(nodes_to_be_evaluated=nodes_to_be_evaluated)
         return fock_matrix
diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index c829956..537ccd3 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -301,7 +301,7 @@ class CustomNodes(NodeList):
         
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [shift_per_channel,target_channels],
+            'generic_function_parameters' : [list(shift_per_channel),list(target_channels)],
             'node_type' : 'generic function on collection', 
             'node_info' : node_info
         }
@@ -378,7 +378,7 @@ class CustomNodes(NodeList):
         
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [control_channels,target_channels],
+            'generic_function_parameters' : [list(control_channels),list(target_channels)],
             'node_type' : 'generic function on collection', 
             'node_info' : node_info
         }
diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index dec9c02..6060b5c 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -1,5 +1,6 @@
 
 from __future__ import annotations
+import numpy as np
 from fock_state_circuit.nodes.nodelist.optical_values_component_names import OpticalValues,ComponentNames
 
 class NodeList():    
@@ -157,10 +158,23 @@ class NodeList():
             node_to_be_added['node_type'] not in NodeList._TYPES_OF_NODES):
             raise Exception('Error when updating the list of nodes for the fock state circuit')
 
-        self.node_list.append(node_to_be_added)
+        # the node keeps the values it is created with, also if the lists or matrices of the caller change afterwards. The 
+        # parameters for a generic function belong to the user and are passed to that function as they are.
+        node = {key : value if key == 'generic_function_parameters' else self._copy_of_values(value) for key, value in node_to_be_added.items()}
+        self.node_list.append(node)
 
         return
 
+    def _copy_of_values(self, value):
+        """ Return a copy of a list, dictionary or numpy array (also if nested). Other values are returned as they are. """
+        if isinstance(value, np.ndarray):
+            return value.copy()
+        if isinstance(value, list):
+            return [self._copy_of_values(item) for item in value]
+        if isinstance(value, dict):
+            return {key : self._copy_of_values(item) for key, item in value.items()}
+        return value
+
     def _translate_channels_numbers_to_tensor_list(self, channel_numbers: list[int] = []) -> list[int]:
 
         """ Generate a tensor list. The tensor list indicates to which optical channel a gate should be applied.
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index bf4425c..69039c1 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -44,7 +44,7 @@ class QuantumOperatorNodes(NodeList):
 
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [channels, operators],
+            'generic_function_parameters' : [list(channels), list(operators)],
             'node_type' : node_type,
             'node_info' : node_info
         }
diff --git a/src/fock_state_circuit/nodes/spectral_nodes.py b/src/fock_state_circuit/nodes/spectral_nodes.py
index 1fad33e..b3bcb7a 100644
--- a/src/fock_state_circuit/nodes/spectral_nodes.py
+++ b/src/fock_state_circuit/nodes/spectral_nodes.py
@@ -121,7 +121,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,delay,pulse_width],
+                                   parameters = [self._copy_of_values(affected_channels),delay,pulse_width],
                                    node_info= node_info) 
         
     def time_delay_classical_control_full(self,
@@ -156,7 +156,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,classical_channel_for_delay,pulse_width],
+                                   parameters = [self._copy_of_values(affected_channels),classical_channel_for_delay,pulse_width],
                                    node_info= node_info) 
         
     def time_delay(self,
@@ -197,7 +197,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,delay,pulse_width],
+                                   parameters = [self._copy_of_values(affected_channels),delay,pulse_width],
                                    node_info= node_info) 
         
     def time_delay_classical_control(self,
@@ -242,7 +242,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,classical_channel_for_delay,pulse_width],
+                                   parameters = [self._copy_of_values(affected_channels),classical_channel_for_delay,pulse_width],
                                    node_info= node_info) 
         
     def set_pulse_width(self,
@@ -280,7 +280,7 @@ class SpectralNodes(NodeList):
                                    function, 
                                    affected_optical_channels= affected_channels, 
                                    affected_classical_channels = [], 
-                                   parameters = [affected_channels,pulse_width],
+                                   parameters = [self._copy_of_values(affected_channels),pulse_width],
                                    node_info= node_info) 
             
 
diff --git a/src/fock_state_circuit/nodes/superquantum_nodes.py b/src/fock_state_circuit/nodes/superquantum_nodes.py
index 4a32a22..bb1aaf1 100644
--- a/src/fock_state_circuit/nodes/superquantum_nodes.py
+++ b/src/fock_state_circuit/nodes/superquantum_nodes.py
@@ -92,7 +92,7 @@ class SuperQuantumNodes(NodeList):
         
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [pr_correlation],
+            'generic_function_parameters' : [self._copy_of_values(pr_correlation)],
             'node_type' : 'generic function on collection', 
             'node_info' : node_info
         }
@@ -253,7 +253,7 @@ class SuperQuantumNodes(NodeList):
         
         node_to_be_added = {
             'generic_function' : generic_function,
-            'generic_function_parameters' : [ns_boxes],
+            'generic_function_parameters' : [self._copy_of_values(ns_boxes)],
             'node_type' : 'generic function on collection', 
             'node_info' : node_info
         }
-- 
2.43.0


From edf1e40c0f14bbb97b0c1f7335c925a438b566f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:21 +0000
Subject: [PATCH 67/67] fix: quantum operators drop components with low
 probability instead of small matrix elements

---
 .../quantum_operator_functionality/quantum_operators.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index 18a0401..9028e8e 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -237,7 +237,7 @@ class QuantumOperator:
             affected_values = [values[channel] for channel in optical_channels]
             input_index = self._lim_basis_to_index[tuple(affected_values)]
             for output_index, coeff in enumerate(self._transition_matrix[input_index,:]):
-                if np.round(np.abs(coeff),4)**2 > state._threshold_probability_for_setting_to_zero:
+                if np.round(np.abs(coeff),4) > 0:
                     output_values_in_limited_base = self._lim_basis_to_values[output_index]
                     full_output_values = values.copy()
                     for channel, value in zip(optical_channels, output_values_in_limited_base):
@@ -249,6 +249,9 @@ class QuantumOperator:
         else:
             # if loop finished without break all components are valid for the circuit
             new_state.optical_components = new_components
+            # contributions to a component can interfere, so only drop components if their total probability is low
+            new_state.optical_components = {component: amp_prob for component, amp_prob in new_state.optical_components.items()
+                                            if amp_prob['probability'] >= state._threshold_probability_for_setting_to_zero}
             return new_state    
         # if the for loop ended with break statement return the original state
         return state                                                    
-- 
2.43.0

