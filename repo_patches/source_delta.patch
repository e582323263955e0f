From bdd34c4557d6858901f9c18cd3907fc147ef53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 01/54] fix: make_config saves genesis/persistence functions
 under the keys they are built from, one per internal channel

---
 yuca/ca/continuous.py | 77 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 15 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..90757fc 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -126,12 +126,22 @@ class CCA(CA):
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
         self.initialize_neighborhood_layer()
 
-        self.add_genesis_fn(config["genesis_config"])
-        self.add_persistence_fn(config["persistence_config"])
-
         self.genesis_fn_config = config["genesis_config"]
         self.persistence_fn_config = config["persistence_config"]
 
+        # there is a list of configs if there is more than one internal channel
+        if type(self.genesis_fn_config) is list:
+            for genesis_config in self.genesis_fn_config:
+                self.add_genesis_fn(genesis_config)
+        else:
+            self.add_genesis_fn(self.genesis_fn_config)
+
+        if type(self.persistence_fn_config) is list:
+            for persistence_config in self.persistence_fn_config:
+                self.add_persistence_fn(persistence_config)
+        else:
+            self.add_persistence_fn(self.persistence_fn_config)
+
         if "dt" in config.keys():
             self.set_dt(config["dt"])
         else: 
@@ -172,6 +182,40 @@ class CCA(CA):
             print(f"attempted to read {filepath}, not found")
             #assert False, f"{filepath} not found"
         
+    def make_fn_config(self, fn_config, fns):
+        """
+        return a copy of fn_config (a list of configs, if there is more 
+        than one function) holding the current values of the genesis or 
+        persistence functions, under the keys they are built from.
+        """
+
+        if type(fn_config) is list:
+            return [self.make_fn_config(elem, [fn]) \
+                    for elem, fn in zip(fn_config, fns)]
+
+        new_config = copy.deepcopy(fn_config)
+
+        if fn_config["name"] == "GaussianMixture":
+
+            # mixtures are described by (mu, sigma) pairs
+            # or by (amplitude, mu, sigma) triplets
+            has_amplitudes = len(fn_config.get("parameters", [])) % 3 == 0 \
+                    and "parameters" in fn_config.keys()
+
+            parameters = []
+            for amplitude, gaussian in zip(fns[0].amplitudes, fns[0].gaussians):
+                if has_amplitudes:
+                    parameters.append(amplitude.item())
+                parameters.extend([gaussian.mu.item(), gaussian.sigma.item()])
+
+            new_config["parameters"] = np.array(parameters)
+
+        else:
+            for name, param in fns[0].named_parameters():
+                new_config[name] = param.detach().cpu().clone()
+
+        return new_config
+
     def make_config(self):
 
         config = {}
@@ -214,13 +258,9 @@ class CCA(CA):
                     "mode": 1}
             self.genesis_fn_config = genesis_config
         else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
+            genesis_config = self.make_fn_config(self.genesis_fn_config, \
+                    self.genesis_fns)
 
-        #if "parameters" in genesis_config.keys():
-
-        #    genesis_config["parameters"] = self.get_genesis_params()
-            
         # persistence
         if self.persistence_fn_config is None:
             print("persistence fn config is missing, assuming GaussianMixture")
@@ -230,13 +270,9 @@ class CCA(CA):
                     "mode": 1}
             self.persistence_fn_config = persistence_config
         else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
-
-        #if "parameters" in persistence_config.keys():
+            persistence_config = self.make_fn_config(\
+                    self.persistence_fn_config, self.persistence_fns)
 
-        #    persistence_config["parameters"] = self.get_persistence_params()
-            
         config["id_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
@@ -268,6 +304,9 @@ class CCA(CA):
 
         self.genesis_fns = []
         self.persistence_fns = []
+        genesis_configs = []
+        persistence_configs = []
+
         self.add_identity_kernel()
         self.initialize_id_layer()
 
@@ -348,6 +387,14 @@ class CCA(CA):
                 self.add_genesis_fn(genesis_config)
                 self.add_persistence_fn(persistence_config)
 
+                genesis_configs.append(genesis_config)
+                persistence_configs.append(persistence_config)
+
+            # remember how the functions were built, so they can be saved
+            self.genesis_fn_config = genesis_configs \
+                    if len(genesis_configs) > 1 else genesis_configs[0]
+            self.persistence_fn_config = persistence_configs \
+                    if len(persistence_configs) > 1 else persistence_configs[0]
 
         self.set_dt(0.1)
 
-- 
2.43.0


From 373b94a8979b5a4f279c134eab488eb20e2d1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 02/54] fix: setting params keeps the kind and config of the
 neighborhood kernel, loading a config leaves the caller's dict alone

---
 yuca/ca/common.py             | 42 +++++++++++++++++++++++++++--------
 yuca/ca/continuous.py         | 11 ++++-----
 yuca/ca/neural.py             | 38 +++++--------------------------
 yuca/ca/reaction_diffusion.py |  2 ++
 4 files changed, 47 insertions(+), 46 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..8905930 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -26,6 +26,7 @@ from yuca.configs import get_orbium_config, \
 
 from yuca.kernels import get_kernel, \
         get_gaussian_kernel, \
+        get_gaussian_mixture_kernel, \
         get_dogaussian_kernel, \
         get_gaussian_edge_kernel, \
         get_cosx2_kernel, \
@@ -263,6 +264,10 @@ class CA(nn.Module):
         and therefore changing the spatial resolution of the system. 
         """
 
+        if self.neighborhood_kernel_config is None:
+            self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                    "kernel_kwargs": {"parameters": self.kernel_params}}
+
         self.neighborhood_kernel_config["radius"] = radius
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         self.add_neighborhood_kernel(nbhd_kernel)
@@ -273,20 +278,39 @@ class CA(nn.Module):
 
     def update_kernel_params(self, kernel_kwargs):
 
-        self.kernel_params = None
+        self.kernel_params = np.array([])
+
+        for key in kernel_kwargs.keys():
+            self.kernel_params = np.append(self.kernel_params, \
+                    np.array(kernel_kwargs[key]))
+
+    def get_kernel_from_params(self):
+        """
+        build the neighborhood kernel described by kernel_params, and 
+        keep neighborhood_kernel_config (if there is one) in step with them
+        """
+
+        if self.neighborhood_kernel_config is None:
+            return get_gaussian_mixture_kernel(radius=self.kernel_radius, \
+                    parameters=self.kernel_params)
+
+        kernel_kwargs = self.neighborhood_kernel_config.get("kernel_kwargs", {})
+        param_start = 0
 
         for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
+            old_values = np.array(kernel_kwargs[key])
+            param_stop = param_start + old_values.size
+            values = 1.0 * self.kernel_params[param_start:param_stop]
+            kernel_kwargs[key] = values if old_values.ndim else values.item()
+            param_start = param_stop
+
+        return get_kernel(self.neighborhood_kernel_config)
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 90757fc..f8dc82f 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -107,6 +107,8 @@ class CCA(CA):
         self.genesis_fns = []
         self.persistence_fns = []
 
+        # this copy will change along with the ca, the caller's config should not
+        config = copy.deepcopy(config)
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
@@ -119,8 +121,8 @@ class CCA(CA):
 
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         # update self.kernel_radius
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
@@ -723,10 +725,9 @@ class CCA(CA):
                 param_start = param_stop
 
         param_stop = param_start + self.kernel_params.shape[0]
-        self.kernel_params = params[param_start:param_stop]
+        self.kernel_params = 1.0 * params[param_start:param_stop]
 
-        nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                parameters=self.kernel_params)
+        nbhd_kernel = self.get_kernel_from_params()
 
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..e64bc75 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -81,17 +81,6 @@ class NCA(CA):
 
         self.reset()
 
-    def update_kernel_params(self, kernel_kwargs):
-
-        self.kernel_params = None
-
-        for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
-
     def default_init(self):
 
         self.add_identity_kernel()
@@ -121,22 +110,13 @@ class NCA(CA):
         self.set_dt(0.1)
 
 
-    def set_kernel_config(self, kernel_config):
-
-        self.neighborhood_kernel_config = kernel_config
-        self.kernel_radius = self.neighborhood_kernel_config["radius"]
-        nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
-
-        self.add_neighborhood_kernel(nbhd_kernel)
-
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
             self.__init__(**config["instant_kwargs"])
 
-
+        # this copy will change along with the ca, the caller's config should not
+        config = copy.deepcopy(config)
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
@@ -150,13 +130,8 @@ class NCA(CA):
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            pass
-        else:
-            self.neighborhood_kernel_config["kernel_kwargs"] = {}
-
-        self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
-            
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         # update self.kernel_radius
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
@@ -356,10 +331,9 @@ class NCA(CA):
 
         if self.kernel_params is not None:
             param_stop = param_start + self.kernel_params.shape[0]
-            self.kernel_params = params[param_start:param_stop]
+            self.kernel_params = 1.0 * params[param_start:param_stop]
 
-            nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                    parameters=self.kernel_params)
+            nbhd_kernel = self.get_kernel_from_params()
 
             self.add_neighborhood_kernel(nbhd_kernel)
             self.initialize_neighborhood_layer()
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..8adf29f 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -75,6 +75,8 @@ class RxnDfn(CA):
 
     def load_config(self, config, verbose=False):
 
+        # this copy will change along with the ca, the caller's config should not
+        config = copy.deepcopy(config)
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
-- 
2.43.0


From 6a2638c4dafb65d9644be981a6f5b6ee246413ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 03/54] fix: the identity kernel survives saving and loading a
 config

---
 yuca/ca/continuous.py         | 8 +++++---
 yuca/ca/neural.py             | 8 +++++---
 yuca/ca/reaction_diffusion.py | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index f8dc82f..8aa891c 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -111,10 +111,12 @@ class CCA(CA):
         config = copy.deepcopy(config)
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -275,7 +277,7 @@ class CCA(CA):
             persistence_config = self.make_fn_config(\
                     self.persistence_fn_config, self.persistence_fns)
 
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
         config["persistence_config"] = persistence_config
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index e64bc75..cf2fb96 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -119,10 +119,12 @@ class NCA(CA):
         config = copy.deepcopy(config)
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -209,7 +211,7 @@ class NCA(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         if "dt" not in config.keys():
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 8adf29f..a9e8a3b 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -79,10 +79,12 @@ class RxnDfn(CA):
         config = copy.deepcopy(config)
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -182,7 +184,7 @@ class RxnDfn(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         config["dt"] = self.dt.item() 
-- 
2.43.0


From 5d426fb5210bb65976b6b98ac778100987be6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 04/54] fix: a saved config no longer refers to the files its
 CA was loaded from

---
 yuca/ca/continuous.py | 5 ++++-
 yuca/ca/neural.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 8aa891c..76cd37d 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -286,7 +286,10 @@ class CCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels, and all kwargs for instantiating ca
-        config["instant_kwargs"] = self.instant_kwargs
+        # except for files to load from, as this config replaces their contents
+        config["instant_kwargs"] = {key: value \
+                for key, value in self.instant_kwargs.items() \
+                if key not in ["ca_config", "input_filepath"]}
 
         config["instant_kwargs"]["kernel_radius"] = self.kernel_radius
         config["instant_kwargs"]["kernel_peaks"] = self.kernel_peaks
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index cf2fb96..05abc1e 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -218,7 +218,10 @@ class NCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels
-        config["instant_kwargs"] = self.instant_kwargs
+        # except for files to load from, as this config replaces their contents
+        config["instant_kwargs"] = {key: value \
+                for key, value in self.instant_kwargs.items() \
+                if key not in ["ca_config", "input_filepath"]}
         config["instant_kwargs"]["activation"] = str(self.act).split("'")[1].split(".")[-1]
         config["instant_kwargs"]["dropout_rate"] = self.dropout_rate
 
-- 
2.43.0


From 6fe77ac4630a5a9cfd52ea64ce061fa64c11dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 05/54] fix: get_frame applies the alive mask, as forward does

---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 8905930..32bd6c8 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -361,6 +361,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 76cd37d..c0ccd56 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -619,6 +619,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From da85f4f8b0b2a7c7164bdbf9f0f6187b33f79a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 06/54] fix: get_dt works for CAs with variable step sizes

---
 yuca/ca/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 32bd6c8..45997de 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -250,8 +250,8 @@ class CA(nn.Module):
 
     def get_dt(self):
 
-        # self.dt is a torch tensor
-        return self.dt.item()
+        # self.dt is a torch tensor, or a float if the step size varies
+        return float(self.dt)
 
     def get_dx(self):
 
-- 
2.43.0


From 5c3e59ee1480a9231ebad3cb322d5905f8310d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 07/54] fix: CODE.reset restores the initial step size, so runs
 can be repeated

---
 yuca/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..c11bacc 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -45,7 +45,6 @@ class CODE(CCA):
     def __init__(self, **kwargs):
         super(CODE, self).__init__(**kwargs)
     
-        self.prev_dt = query_kwargs("prev_dt", 0.3, **kwargs)
         self.max_dt = query_kwargs("max_dt", 0.5, **kwargs)
         self.min_dt = query_kwargs("min_dt", 0.01, **kwargs)
         self.error_threshold = query_kwargs("error_threshold", 1e-3, **kwargs)
@@ -56,6 +55,7 @@ class CODE(CCA):
     def reset(self):
 
         self.t_count = 0.0
+        self.prev_dt = query_kwargs("prev_dt", 0.3, **self.instant_kwargs)
 
     def adaptive_euler(self, grid, total_step=0.0):
         
-- 
2.43.0


From 40e9eb359c2dfb17d49ed5a2b868935ddd71e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 08/54] fix: MetaCA keeps track of simulated time like other
 CAs

---
 yuca/metaca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yuca/metaca.py b/yuca/metaca.py
index 896310c..d6f026c 100644
--- a/yuca/metaca.py
+++ b/yuca/metaca.py
@@ -68,11 +68,14 @@ class MetaCA(CCA):
         self.dgrid = self.dgrid + self.ddt * update_update
         
         new_grid = torch.clamp(grid + self.dt * self.dgrid, 0, 1.0)
-        
+
+        self.t_count += self.dt.detach().cpu()
+
         return new_grid
 
     def reset(self):
 
+        self.t_count = 0.0
         self.dgrid = torch.tensor([0])
 
 if __name__ == "__main__":
-- 
2.43.0


From 43771a6f85f3b1e6b70cb23b0f2dc366ad52ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 09/54] fix: halting wrappers reset the CA so no state leaks
 between evaluations

---
 yuca/wrappers/halting_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..28ddbba 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -60,6 +60,7 @@ class SimpleHaltingWrapper(nn.Module):
     def step(self, action):
     
         self.ca.set_params(action)
+        self.ca.reset()
 
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
@@ -278,6 +279,7 @@ class HaltingWrapper(nn.Module):
             self.optimizer.step()
 
         self.eval()
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim, device=self.my_device)
-- 
2.43.0


From c036eae0ad0e7a545b9015e9d473fa41e7a25c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 10/54] fix: zoo metadata survives commas, newlines and missing
 fields

---
 yuca/zoo/librarian.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..53a04e3 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -72,10 +72,12 @@ class Librarian():
                 config_name = ca_config
 
         with open(meta_path, "w") as f:
-            f.write(f"ca_config,{config_name}")
-            f.write(f"\ncommit_hash,{commit_hash}")
-            f.write(f"\nnotes, {notes}")
-            f.write(f"\nentry_point,{entry_point}")
+            # one line for each value, e.g. git hashes come with a newline
+            one_line = lambda value: " ".join(str(value).splitlines())
+            f.write(f"ca_config,{one_line(config_name)}")
+            f.write(f"\ncommit_hash,{one_line(commit_hash)}")
+            f.write(f"\nnotes, {one_line(notes)}")
+            f.write(f"\nentry_point,{one_line(entry_point)}")
 
         np.save(file_path, pattern) 
 
@@ -96,24 +98,14 @@ class Librarian():
         pattern = np.load(file_path)
 
         with open(meta_path) as f:
-            metadata = f.readlines()
-
-            ca_config = metadata[0].split(",")[1]
-
-            try:
-                entry_point = metadata[3].split(",")[1]
-            except:
-                entry_point = "none"
-
-            try:
-                notes = metadata[2].split(",")[1]
-            except:
-                notes = ""
-
-            try:
-                commit_hash = metadata[1].split(",")[1]
-            except:
-                commit_hash = "none"
+            # one "key,value" per line, values may have commas in them
+            metadata = dict([line.strip().split(",", 1) \
+                    for line in f.readlines() if "," in line])
+
+            ca_config = metadata["ca_config"]
+            entry_point = metadata.get("entry_point", "none")
+            notes = metadata.get("notes", "").strip()
+            commit_hash = metadata.get("commit_hash", "none")
 
         if self.verbose:
             print(f"pattern {pattern_name} loaded from {file_path}")
-- 
2.43.0


From a2b14dae13e448bc9b46a83dc572fadd7a009793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 11/54] fix: a quiet librarian records the ca_config as well

---
 yuca/zoo/librarian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 53a04e3..2de47ec 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -65,9 +65,10 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
-                print(f"warning, no config supplied for {pattern_name}")
+        if config_name == "unspecified":
+            if ca_config == "unspecified":
+                if self.verbose:
+                    print(f"warning, no config supplied for {pattern_name}")
             else:
                 config_name = ca_config
 
-- 
2.43.0


From 97ee0406d165b2ce63b89083ec10e8a9579f81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 12/54] fix: the zoo index lists patterns whatever their names
 contain

---
 yuca/zoo/librarian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 2de47ec..3c6459c 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -30,10 +30,7 @@ class Librarian():
 
         remove_list = []
         for elem in pattern_names:
-            if ".py" in elem \
-                    or ".ipynb" in elem \
-                    or "csv" in elem \
-                    or "__pycache__" in elem:
+            if os.path.splitext(elem)[1] != ".npy":
                 remove_list.append(elem)
                 
         for elem in remove_list:
-- 
2.43.0


From fca0c2241e638af784f5cea5db7d6887527d12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 13/54] fix: elitism keeps every elite, also when elites are at
 the front of the population

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..18b10a3 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -313,7 +313,7 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            self.population[kk].set_params(elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From fd2248a94e6afa55cfd821f1c911d5c2cff0f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 14/54] fix: search initializes the population once, not twice

---
 yuca/cmaes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 18b10a3..bc04793 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -441,7 +441,6 @@ class CMAES():
 
             seed_all(my_seed)
             self.reset()
-            self.initialize_population()
             
             self.generation = 0
 
-- 
2.43.0


From 3b81630379f4b491e462b42c0a21136f677f5c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 15/54] fix: stopping early saves the best of the evaluated
 population

---
 yuca/cmaes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index bc04793..76cc741 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -515,8 +515,10 @@ class CMAES():
                         proportion_alive.extend(prop_alive)
 
 
-                
-                if generation == self.generations - 1:
+                # once fitness has converged the run ends with this generation
+                early_stop = np.std(fitness) < 0.02 and generation > 6
+
+                if generation == self.generations - 1 or early_stop:
                     self.rank_population(fitness, seed=my_seed)
                 else:
                     self.update_population(fitness)
@@ -560,8 +562,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if early_stop:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From f4fdaf74fc9ab638c0cee792c97a7a938185c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 16/54] fix: a search with one worker evaluates the population
 itself

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 76cc741..1048ee4 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -467,7 +467,7 @@ class CMAES():
                 
                 t1 = time.time()
 
-                if self.workers == 0:
+                if self.workers <= 1:
                     for jj in range(self.population_size):
                         result = self.get_fitness(jj, steps = 1, \
                                 replicates = self.replicates, \
-- 
2.43.0


From 8b24a670f5f28fc1c193d4494206ebc95e59b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 17/54] fix: each seed of a search starts afresh and has its
 own log

---
 yuca/cmaes.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 1048ee4..f00b325 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -86,6 +86,7 @@ class CMAES():
         print(self.input_filepath)
 
         self.elite_params = None
+        self.starting_elite_params = None
 
         if self.input_filepath is not None:
             my_data = np.load(self.input_filepath, allow_pickle=True).reshape(1)[0]
@@ -102,6 +103,7 @@ class CMAES():
                                 my_params[-1][ii:ii+1], axis=0)
 
                 self.starting_means = np.mean(self.elite_params, axis=0)
+                self.starting_elite_params = 1.0 * self.elite_params
 
             else:
                 params_msg = f"log and agent params have different shape"\
@@ -420,16 +422,6 @@ class CMAES():
 
         t0 = time.time()
 
-        progress = {}
-        progress["elite_params"] = []
-        progress["elite_configs"] = []
-        progress["mean_fitness"] = []
-        progress["max_fitness"] = []
-        progress["min_fitness"] = []
-        progress["std_dev_fitness"] = []
-        progress["kwargs"] = self.kwargs
-        progress["distribution"] = []
-
         print(f"begin evolution with:\n" \
                 f"selection mode {self.selection_mode} " \
                 f"prediction motivator mode {self.prediction_mode}")
@@ -439,6 +431,19 @@ class CMAES():
         for my_seed in self.my_seed:
             print(f"random seed {my_seed}")
 
+            # each seed is an experiment of its own, with its own log
+            progress = {}
+            progress["elite_params"] = []
+            progress["elite_configs"] = []
+            progress["mean_fitness"] = []
+            progress["max_fitness"] = []
+            progress["min_fitness"] = []
+            progress["std_dev_fitness"] = []
+            progress["kwargs"] = self.kwargs
+            progress["distribution"] = []
+
+            self.elite_params = self.starting_elite_params
+
             seed_all(my_seed)
             self.reset()
             
-- 
2.43.0


From a1432fd00f667b9b4ce5f69196ba41ea7f0a9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 18/54] fix: the config saved by CMACES has the rule part of
 the best genome

---
 yuca/cmaes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index f00b325..817d9f9 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -229,10 +229,14 @@ class CMAES():
         ca_config_filepath = os.path.join(temp, f"ca_configs/{self.exp_id}_seed{seed}.npy")
         
         if "pattern" not in self.tag:
-            self.env.ca.set_params(self.elite_params[0])
+            self.set_ca_params(elite_pop[0])
 
         self.env.ca.save_config(ca_config_filepath)
 
+    def set_ca_params(self, agent):
+        
+        self.env.ca.set_params(agent.get_params())
+
 
     def update_population(self, fitness):
 
@@ -661,6 +665,11 @@ class CMACES(CMAES):
         # reduce the impact of lucky/unlucky predictor initializations
         return np.mean(fitness_replicates), proportion_alive
 
+    def set_ca_params(self, agent):
+
+        # only part of the genome of these agents describes the ca rules
+        self.env.ca.set_params(agent.get_rule_action())
+
     def get_elite_configs(self):
 
         elite_configs = []
-- 
2.43.0


From 202fb72e690862ba95b6ff4a1f911e4fc28de8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 19/54] fix: CPPNs made with params use them

---
 yuca/cppn.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..2195305 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,9 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        if "params" in kwargs.keys():
+            self.set_pattern_params(kwargs["params"])
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
@@ -171,7 +174,7 @@ class CPPN(nn.Module):
 
         return params
         
-    def set_params(self, params):
+    def set_pattern_params(self, params):
 
         param_start = 0
 
@@ -189,6 +192,12 @@ class CPPN(nn.Module):
 
             param_start = param_stop
 
+        return param_start
+
+    def set_params(self, params):
+
+        _ = self.set_pattern_params(params)
+
     def to_device(self, device):
         
         self.my_device = torch.device(device)
@@ -245,21 +254,7 @@ class CPPNPlus(CPPN):
         
     def set_params(self, params):
 
-        param_start = 0
-
-        for name, param in self.model.named_parameters():
-            if not len(param.shape):
-                param = param.reshape(1)
-
-
-            param_stop = param_start + reduce(lambda x,y: x*y, param.shape) 
-
-            param[:] = nn.Parameter(\
-                    torch.tensor(\
-                    params[param_start:param_stop].reshape(param.shape)),\
-                    requires_grad = False)
-
-            param_start = param_stop
+        param_start = self.set_pattern_params(params)
 
         self.params_agent.set_params(params[param_start:])
 
-- 
2.43.0


From b80b2394a1605783c93846b05d550977821d2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 20/54] fix: CPPN inputs have the right number of channels for
 more than two external channels

---
 yuca/cppn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index 2195305..754bc02 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -138,9 +138,8 @@ class CPPN(nn.Module):
 
 
 
-        for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+        grid = torch.cat([grid] * self.external_channels, dim=1)
+        rr = torch.cat([rr] * self.external_channels, dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From ec048bf6a0ed19158c27d2471f8915bd64f136fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 21/54] fix: the clone uses the neighborhood of the ca it is
 cloned from

---
 yuca/clone.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/clone.py b/yuca/clone.py
index 9d9d078..06f6547 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -62,6 +62,7 @@ def clone_from_ca(**kwargs):
                     external_channels=external_channels,\
                     hidden_channels=hidden_channels)
             nca.add_neighborhood_kernel(ca.neighborhood_kernels)
+            nca.initialize_neighborhood_layer()
             nca.yes_grad()
 
             optimizer = torch.optim.Adam(nca.weights_layer.parameters(), lr=learning_rate)
-- 
2.43.0


From 4fd5f033897c22acac996c720f9510a6b5c5bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 22/54] fix: cloning saves the best network, not the last
 weights of its iteration

---
 yuca/clone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 06f6547..3bc08d6 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import os
 import time
 
@@ -115,7 +116,8 @@ def clone_from_ca(**kwargs):
 
                         if relative_error < best_error:
                             best_error = relative_error
-                            best_state_dict = nca.state_dict()
+                            # state_dict refers to the weights as they train
+                            best_state_dict = copy.deepcopy(nca.state_dict())
 
                         if verbose:
                             msg = f"iteration {iteration} new best relative error at step {step} "\
-- 
2.43.0


From 6f4379992c87bb82deaaceb7c4d78fa7ce937ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 23/54] fix: conditional entropy counts joint occurrences of
 states

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..ee07fa3 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -113,7 +113,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     
     for ii in range(p.shape[0]):
         for jj in range(p.shape[1]):
-            p[ii,jj] = np.sum((uint8_grid == ii) == (uint8_grid_shifted == jj))
+            p[ii,jj] = np.sum((uint8_grid == ii) & (uint8_grid_shifted == jj))
     
     # normalize p
     p_su = p / p.sum()
@@ -124,7 +124,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     for kk in range(p_s_given_u.shape[0]):
         for ll in range(p_s_given_u.shape[1]):
             
-            p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
+            p_s_given_u[kk, ll] = p[kk,ll] / max([np.sum(p[:,ll]), 1.0])
             
     
     h = - np.sum( p_su * np.log2( eps+p_s_given_u))
-- 
2.43.0


From b19e07fba5cf758229d31429e3efd5ea826054d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 24/54] fix: analyze_universe works with odd grid dimensions

---
 yuca/analyze.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index ee07fa3..8597e91 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -306,7 +306,8 @@ class Phanes():
                 grid[:,:,:,-b_dim//2:] *= 0
         else:
 
-            grid[:,:,b_dim//2:-b_dim//2, b_dim//2:-b_dim//2] = torch.rand(\
+            start = b_dim // 2
+            grid[:,:,start:start+b_dim, start:start+b_dim] = torch.rand(\
                     self.batch_size, 1, b_dim, b_dim)
 
         # escape mask checks for patterns that escape the bounding box
-- 
2.43.0


From 12b5cf756243c868bb9b55684d24b4ae6dd05770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 25/54] fix: StepPredictor trains and evaluates itself, not a
 global model

---
 yuca/step_predictor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index f108594..5d3f869 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -102,7 +102,7 @@ class StepPredictor(nn.Module):
 
                 optimizer.zero_grad()
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 loss = torch.mean((batch_y.to(self.my_device) - pred)**2)
 
@@ -126,7 +126,7 @@ class StepPredictor(nn.Module):
                 with torch.no_grad():
                     for batch_x, batch_y in val_dataloader:
 
-                        pred = model(batch_x.to(self.my_device))
+                        pred = self(batch_x.to(self.my_device))
 
                         #mse loss
                         val_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
@@ -174,7 +174,7 @@ class StepPredictor(nn.Module):
 
             for batch_x, batch_y in test_dataloader:
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 #mse loss
                 test_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
-- 
2.43.0


From fecf32908026db2adb93763a69ab90f6f05b68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 26/54] fix: StepPredictor saves its weights in the models
 folder

---
 yuca/step_predictor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 5d3f869..728f03b 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -154,11 +154,11 @@ class StepPredictor(nn.Module):
                         "epochs": epochs,\
                         "val_loss": val_losses}
 
-                save_path = os.path.split(os.path.split(\
+                root_path = os.path.split(os.path.split(\
                         os.path.realpath(__file__))[0])[0]
 
-                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
-                model_save_path = os.path.join(save_path, "models", f"{self.exp_tag}_model.pt")
+                save_path = os.path.join(root_path, "logs", f"{self.exp_tag}.npy")
+                model_save_path = os.path.join(root_path, "models", f"{self.exp_tag}_model.pt")
 
                 np.save(save_path, progress)
                 torch.save(self.state_dict(), model_save_path)
-- 
2.43.0


From cd95b7d5f015582389ddaa53521d31ce829603ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 27/54] fix: StepPredictor uses all of its layers

---
 yuca/step_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 728f03b..4c25486 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -68,7 +68,7 @@ class StepPredictor(nn.Module):
                     
     def forward(self, x):
 
-        for jj in range(0, self.layer_repeats, 2):
+        for jj in range(0, 2 * self.layer_repeats, 2):
             
             x0 = torch.relu(self.conv_layers[jj](x))
             x1 = F.dropout(x0, p = self.dropout, training=self.training)
-- 
2.43.0


From bf38f0ecf1dd6e9d05ff9b0e8c188eafe7c0c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 28/54] fix: prep_input has as many channels as the image by
 default

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..34e92a4 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -66,7 +66,7 @@ def get_aperture(img, aperture_radius):
 def prep_input(img, external_channels=None, \
         batch_size=32, aperture_radius=1.0, bite_radius=0.1, noise_level=0.05):
 
-    external_channels = img.shape[0] if external_channels is None \
+    external_channels = img.shape[1] if external_channels is None \
             else external_channels
 
     batch = torch.zeros(batch_size, external_channels, img.shape[2], img.shape[3])
-- 
2.43.0


From 02f8fbf93479f2c461d89e8d8b700efb9da46379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 29/54] fix: bite masks and apertures work for every image size

---
 yuca/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 34e92a4..91a429c 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -40,9 +40,12 @@ def get_bite_mask(img, bite_radius, coords=None):
     if coords is None:
         coords = np.random.rand(2) * radius
 
+    # one coordinate for each pixel, whatever the size of the image
+    y_dim, x_dim = img.shape[2], img.shape[3]
+
     xx, yy = np.meshgrid(\
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)), \
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)))
+            np.arange(x_dim) * (x_dim + 1) / x_dim - x_dim / 2, \
+            np.arange(y_dim) * (y_dim + 1) / y_dim - y_dim / 2)
 
     grid = np.sqrt((xx-coords[0])**2 + (yy-coords[1])**2) / radius
 
-- 
2.43.0


From aed7e077dc3e700484566471106b384ded58fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 30/54] fix: animation folders may have spaces and other
 special characters in their names

---
 yuca/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 91a429c..b94aaeb 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 
 import time
 import numpy as np
@@ -173,16 +174,16 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     if os.path.exists(gif_path):
         pass
     else:
-        os.mkdir(gif_path)
+        os.makedirs(gif_path)
 
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
     first_frame.save(gif_path, format="GIF", append_images=frames, \
             save_all=True, duration=42, loop=0)
 
-    rm_path = os.path.join(frames_path, "*png")
-
-    os.system(f"rm {rm_path}")
+    for filename in dir_list:
+        if filename.endswith("png"):
+            os.remove(os.path.join(frames_path, filename))
 
 def save_fig_sequence(grid, ca, num_steps=10, \
         frames_path="./assets/gif_frames", \
@@ -208,8 +209,7 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     leading = num_steps // 10 + 1
 
     if not os.path.exists(frames_path):
-        my_cmd = f"mkdir -p {frames_path}"
-        os.system(my_cmd)
+        os.makedirs(frames_path)
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
@@ -258,5 +258,5 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     else: 
         print("vanishing grid, no gif made")
 
-    os.system(f"rm -r {frames_path}")
+    shutil.rmtree(frames_path)
     #ca.to_device(old_device)
-- 
2.43.0


From 02effa6948e830f3e98e8ea174a878b3e680c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 31/54] fix: NCA works with different numbers of internal and
 external channels

---
 yuca/ca/neural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 05abc1e..e85b2d0 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -246,7 +246,7 @@ class NCA(CA):
         
         self.weights_layer = nn.Sequential(\
                 nn.Conv2d(\
-                    self.external_channels + self.internal_channels,\
+                    2 * self.internal_channels,\
                     self.hidden_channels, 1, \
                     padding=0, \
                     padding_mode = self.conv_mode, bias=False),\
-- 
2.43.0


From b398c12252238f034884d9718823d796ad0f4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 32/54] fix: CODE starts from min_dt if the previous step was
 much smaller

---
 yuca/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/code.py b/yuca/code.py
index c11bacc..bdd989e 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -61,7 +61,7 @@ class CODE(CCA):
         
         keep = False
         
-        current_step = min([self.prev_dt * 2, self.max_dt])
+        current_step = max([min([self.prev_dt * 2, self.max_dt]), self.min_dt])
         # Don't track gradients while estimating step size
         with torch.no_grad():
 
-- 
2.43.0


From bfc459224a88ac1a6753d3a5eca9fec0991a6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 33/54] fix: an interrupted store leaves no incomplete pattern
 in the zoo

---
 yuca/zoo/librarian.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 3c6459c..29616bd 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -1,3 +1,4 @@
+import io
 import os
 
 import numpy as np
@@ -77,7 +78,14 @@ class Librarian():
             f.write(f"\nnotes, {one_line(notes)}")
             f.write(f"\nentry_point,{one_line(entry_point)}")
 
-        np.save(file_path, pattern) 
+        # a pattern is part of the zoo once it is completely written
+        # (writing from a buffer, np.save misses errors when a disk is full)
+        buffer = io.BytesIO()
+        np.save(buffer, pattern)
+        temp_path = f"{file_path}.tmp"
+        with open(temp_path, "wb") as f:
+            f.write(buffer.getvalue())
+        os.replace(temp_path, file_path)
 
         if self.verbose:
             print(f"pattern {pattern_name} saved to {file_path}")
-- 
2.43.0


From 8c8d238be4c38b8f431006634c00882405fccbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 34/54] fix: a search with the random reward wrapper does not
 crash

---
 yuca/wrappers/random_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/random_wrapper.py b/yuca/wrappers/random_wrapper.py
index 41c53d9..8d4b3ea 100644
--- a/yuca/wrappers/random_wrapper.py
+++ b/yuca/wrappers/random_wrapper.py
@@ -25,6 +25,6 @@ class RandomWrapper(SimpleHaltingWrapper):
 
         
         seed_all(int((time.time() % 1)*1000))
-        info = {"active_grid": torch.tensor([-1.0])}
+        info = {"active_grid": torch.tensor(-1.0)}
         return 0, torch.rand(1), 0, info
         
-- 
2.43.0


From ec180d95c961f17f36eef4815560e6c3f25c77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:01 +0000
Subject: [PATCH 35/54] fix: parallel searches with the halting wrapper do not
 crash and hang

---
 yuca/cmaes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 817d9f9..3087735 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -432,6 +432,9 @@ class CMAES():
 
         self.env.ca.no_grad()
         self.env.ca.to_device(self.my_device)
+        # when workers measure fitness, this process still steps the environment
+        self.env.reset()
+        self.env.to_device(self.my_device)
         for my_seed in self.my_seed:
             print(f"random seed {my_seed}")
 
-- 
2.43.0


From 699fde4e642fdffc14e794189fd905ca4540911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 36/54] fix: analysis results are saved next to the configs,
 with or without a trailing slash

---
 yuca/analyze.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index 8597e91..61306e7 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -419,9 +419,10 @@ class Phanes():
 
                 print(progress_msg)
 
-                save_directory = os.path.split(os.path.split(my_directory)[0])[0]
+                # next to the input directory, with or without a trailing slash
+                save_directory = os.path.split(os.path.normpath(my_directory))[0]
                 save_directory = os.path.join(save_directory, "ca_analysis")
-
+                os.makedirs(save_directory, exist_ok=True)
                 
                 save_name = os.path.splitext(filename)[0] \
                         + f"cppn{self.use_cppn}_analysis.npy"
-- 
2.43.0


From 51f16a51cadf7bd72adb39c2c1c76ebe59c35e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 37/54] fix: frames of an interrupted animation do not get into
 the next one

---
 yuca/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index b94aaeb..f621fc6 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -208,8 +208,11 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     # number of leading zeros
     leading = num_steps // 10 + 1
 
-    if not os.path.exists(frames_path):
-        os.makedirs(frames_path)
+    if os.path.exists(frames_path):
+        # frames left by an interrupted animation are not part of this one
+        shutil.rmtree(frames_path)
+
+    os.makedirs(frames_path)
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
-- 
2.43.0


From 113d8175b000fb38e012005c17af5629e1e52532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 38/54] fix: cloning saves the network whose error was
 measured, not its successor

---
 yuca/clone.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 3bc08d6..472cf2d 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -99,16 +99,6 @@ def clone_from_ca(**kwargs):
                     loss = ((target-predicted).abs() / (1e-9 + target.abs())).mean()
                     #(F.mse_loss(predicted, target) + F.mae_loss(predicted, target))
 
-                    loss.backward()
-                    clipping_value = 1e-1 
-                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
-                    optimizer.step()
-
-                    if smooth_loss is None:
-                        smooth_loss = loss.detach()
-                    else:
-                        smooth_loss = loss.detach() #smooth_loss * loss_alpha + (1-loss_alpha) * loss.detach()
-
                     relative_error = (torch.abs(predicted - target)/(target.abs()+1e-9)).mean()
 
                     if relative_error < iteration_best_error:
@@ -127,6 +117,15 @@ def clone_from_ca(**kwargs):
                         if iteration_best_error < error_threshold:
                             break
 
+                    loss.backward()
+                    clipping_value = 1e-1 
+                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
+                    optimizer.step()
+
+                    if smooth_loss is None:
+                        smooth_loss = loss.detach()
+                    else:
+                        smooth_loss = loss.detach() #smooth_loss * loss_alpha + (1-loss_alpha) * loss.detach()
 
                     if step % display_every == 0:
                         new_params = nca.get_params()
-- 
2.43.0


From 3e8fec5a915a9a5b5124e65f9e312819ebeb39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 39/54] fix: cloning several automata saves each under its own
 name

---
 yuca/clone.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 472cf2d..8b2de24 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -36,8 +36,6 @@ def clone_from_ca(**kwargs):
     save_path = os.path.join(log_directory, save_name)
 
 
-    best_state_dict = None
-    
     ca_configs = query_kwargs("ca_config", "orbium", **kwargs)
     if type(ca_configs) == str:
         ca_configs = [ca_configs]
@@ -53,6 +51,7 @@ def clone_from_ca(**kwargs):
 
         iteration = 0
         best_error = float("Inf")
+        best_state_dict = None
 
         t0 = time.time()
         while iteration < max_iterations:
@@ -151,14 +150,16 @@ def clone_from_ca(**kwargs):
         else:
             msg += f"\tdid not meet error threshold {error_threshold:.3e} with loss {best_error:.3e}\n"
 
+        # the template stays as it is for the next config
+        config_save_path = save_path
         if "ca_config" in save_path:
             config_name = os.path.splitext(ca_config)[0] 
-            save_path = save_path.replace("ca_config", config_name)
+            config_save_path = save_path.replace("ca_config", config_name)
 
-        msg += f"saving to {save_path}"
+        msg += f"saving to {config_save_path}"
         print(msg)
 
-        torch.save(best_state_dict, save_path)
+        torch.save(best_state_dict, config_save_path)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 507a21046d9e357f79ce1a11208ce9ef2435f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 40/54] fix: StepPredictor trains without validation data

---
 yuca/step_predictor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 4c25486..72f90df 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -124,7 +124,9 @@ class StepPredictor(nn.Module):
                 val_samples = 0
 
                 with torch.no_grad():
-                    for batch_x, batch_y in val_dataloader:
+                    # without validation data, the loss is not a number
+                    for batch_x, batch_y in \
+                            ([] if val_dataloader is None else val_dataloader):
 
                         pred = self(batch_x.to(self.my_device))
 
@@ -133,9 +135,10 @@ class StepPredictor(nn.Module):
 
                         val_samples += batch_y.shape[0]
 
-                    val_loss /= val_samples
+                    val_loss = float(val_loss) / val_samples \
+                            if val_samples else float("nan")
 
-                val_losses.append(val_loss.item())
+                val_losses.append(val_loss)
                 epochs.append(epoch)
                 wall_time_v.append(time.time() - t0)
 
-- 
2.43.0


From bd29b93438689139889e2f1f78891db7e95ed502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 41/54] fix: a search that is interrupted while writing its log
 keeps the log of earlier generations

---
 yuca/cmaes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 3087735..298aa35 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -558,7 +558,11 @@ class CMAES():
                 progress["std_dev_fitness"].append(fit_std_dev)
 
                 logs_path = os.path.join("./logs", f"{self.exp_id}_seed{my_seed}.npy")
-                np.save(logs_path, progress)
+
+                # the log of earlier generations remains until this one is complete
+                with open(logs_path + ".tmp", "wb") as f:
+                    np.save(f, progress)
+                os.replace(logs_path + ".tmp", logs_path)
 
                 t2 = time.time()
                 timing_msg = f"elapsed time: {t2-t0:.4f}, generation {t2-t1:.4f}"
-- 
2.43.0


From 588220e9b7ad4b1e9d6f548f9906278018496843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 42/54] fix: glider rewards account for wraparound in both
 directions

---
 yuca/wrappers/glider_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 44c1d3e..cfe862c 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -112,6 +112,8 @@ class GliderWrapper():
                     if y_displacement_0 > (kernel_span - 2) and y_displacement_1 < 2:
                         # account for wraparound errors
                         y_displacement += kernel_span
+                    elif y_displacement_0 < 2 and y_displacement_1 > (kernel_span - 2):
+                        y_displacement -= kernel_span
 
                     reward += y_displacement.cpu() - growth.cpu() #* 150
                 else: 
-- 
2.43.0


From 080f1ebf0cbcf1e0254bf0fa16a2635dca4993ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 43/54] fix: cloning without a ca_config clones orbium, not a
 random automaton

---
 yuca/clone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 8b2de24..45105cb 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -36,7 +36,7 @@ def clone_from_ca(**kwargs):
     save_path = os.path.join(log_directory, save_name)
 
 
-    ca_configs = query_kwargs("ca_config", "orbium", **kwargs)
+    ca_configs = query_kwargs("ca_config", "orbium.npy", **kwargs)
     if type(ca_configs) == str:
         ca_configs = [ca_configs]
 
-- 
2.43.0


From 3af7c798113aa46a621b69c601c33d6e95ac55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 44/54] fix: the recorded command line keeps hyphenated values
 with their options

---
 yuca/evolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/evolve.py b/yuca/evolve.py
index 8cc512a..b512aa0 100644
--- a/yuca/evolve.py
+++ b/yuca/evolve.py
@@ -236,7 +236,7 @@ if __name__ == "__main__":
     sorted_args = []
     for aa in range(0, len(args_list)):
 
-        if "-" in args_list[aa]:
+        if args_list[aa].startswith("-"):
             sorted_args.append([args_list[aa]])
         else: 
             sorted_args[-1].append(args_list[aa])
-- 
2.43.0


From 47206da3200c28935730f842e7c203e4f3cc3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 45/54] fix: plot_exp labels the curves of max and min fitness
 as such

---
 yuca/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/plot.py b/yuca/plot.py
index 4320284..09061dd 100644
--- a/yuca/plot.py
+++ b/yuca/plot.py
@@ -63,10 +63,10 @@ def plot_exp(**kwargs):
             color = my_cmap(128))
     plt.plot([gen for gen in range(len(mean_fitness))], \
             max_fitness, "--", lw=1, alpha = 0.95, color = "k",\
-            label="mean fitness")
+            label="max fitness")
     plt.plot([gen for gen in range(len(mean_fitness))], \
             min_fitness, "--", lw=1, alpha = 0.95, color = "k",\
-            label="mean fitness")
+            label="min fitness")
     plt.fill_between([gen for gen in range(len(mean_fitness))], \
             mean_fitness - std_dev_fitness, mean_fitness + std_dev_fitness,\
             alpha=0.25, color = my_cmap(128))
-- 
2.43.0


From 0de3da950d193bd9c4c3b5d4e508dbd8a21773e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 46/54] fix: the demo app imports the automaton from where it
 is, so that it starts

---
 gecco_bokeh_app/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index eadabaa..5e1c804 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -8,7 +8,7 @@ import torch
 import torch.nn as nn
 import torch.nn.functional as F
 
-from yuca.multiverse import CA
+from yuca.ca.continuous import CCA as CA
 from yuca.zoo.librarian import Librarian
 from yuca.cppn import CPPN
 
-- 
2.43.0


From e812d190d1f5adeec3f6153c008b9f0ea62aae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 47/54] fix: the demo app counts steps from zero again when a
 pattern is reset

---
 gecco_bokeh_app/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index 5e1c804..49dd917 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -131,6 +131,7 @@ def reset_this_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
@@ -175,6 +176,7 @@ def reset_next_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
@@ -218,6 +220,7 @@ def reset_prev_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
-- 
2.43.0


From 2cb1fcaebfc8c342aced9c18ce77b5f4984286ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 48/54] fix: the demo app shows patterns stored without batch
 and channel dimensions

---
 gecco_bokeh_app/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index 49dd917..35ce134 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -50,7 +50,7 @@ place_h = (grid.shape[-2] - pattern.shape[-2]) // 2 - 3
 place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
 grid[:,:, place_h:place_h+pattern.shape[-2], place_w:place_w+pattern.shape[-1]] = \
-        torch.tensor(pattern[:,:,:,:])
+        torch.tensor(pattern)
 
 ca.restore_config(rule_string)
 
@@ -152,7 +152,7 @@ def reset_this_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
@@ -195,7 +195,7 @@ def reset_next_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     lib.index.append(temp_pattern_name)
 
@@ -241,7 +241,7 @@ def reset_prev_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     lib.index.append(temp_pattern_name)
             
-- 
2.43.0


From 198739d0d9b82906f2da2a8140cbea1d8869700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 49/54] fix: the demo app keeps only the image it shows, not
 every image since it started

---
 gecco_bokeh_app/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index 35ce134..8206ab9 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -96,7 +96,7 @@ def update():
         #new_line = dict(x=np.arange(my_step+2), y=rewards)
         #new_line = dict(x=[my_step], y=[r.cpu().numpy().item()])
 
-        source.stream(new_data, rollover=0)
+        source.stream(new_data, rollover=1)
         #source_plot.stream(new_line, rollover=2000)
 
         my_step += 1
@@ -156,7 +156,7 @@ def reset_this_pattern():
 
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
-    source.stream(new_data, rollover=0)
+    source.stream(new_data, rollover=1)
     #source_plot.stream(new_line, rollover=2000)
 
     ca_name = os.path.splitext(rule_string)[0]
@@ -201,7 +201,7 @@ def reset_next_pattern():
 
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
-    source.stream(new_data, rollover=0)
+    source.stream(new_data, rollover=1)
     #source_plot.stream(new_line, rollover=2000)
     ca_name = os.path.splitext(rule_string)[0]
 
@@ -247,7 +247,7 @@ def reset_prev_pattern():
             
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
-    source.stream(new_data, rollover=0)
+    source.stream(new_data, rollover=1)
     #source_plot.stream(new_line, rollover=2000)
     ca_name = os.path.splitext(rule_string)[0]
 
-- 
2.43.0


From 46f88024d6b7fe75a43cf6a925e589f7fc66aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 50/54] fix: the demo app keeps a pattern that it cannot show
 in its list

---
 gecco_bokeh_app/main.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index 8206ab9..1531754 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -138,6 +138,7 @@ def reset_this_pattern():
     grid = torch.zeros(1, 1, 96, 96) 
 
     temp_pattern_name = lib.index.pop(-1)
+    lib.index.append(temp_pattern_name)
 
     pattern, pattern_meta =lib.load(temp_pattern_name)
     rule_string = pattern_meta["ca_config"]
@@ -145,8 +146,6 @@ def reset_this_pattern():
     commit_hash = pattern_meta["commit_hash"]
     notes = pattern_meta["notes"]
 
-    lib.index.append(temp_pattern_name)
-
     ca.restore_config(rule_string)
     place_h = (grid.shape[-2] - pattern.shape[-2]) // 2 - 3
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
@@ -183,6 +182,7 @@ def reset_next_pattern():
     grid = torch.zeros(1, 1, 96, 96) 
 
     temp_pattern_name = lib.index.pop(0)
+    lib.index.append(temp_pattern_name)
 
     pattern, pattern_meta =lib.load(temp_pattern_name)
     rule_string = pattern_meta["ca_config"]
@@ -197,8 +197,6 @@ def reset_next_pattern():
     grid[:,:, place_h:place_h+pattern.shape[-2], \
             place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
-    lib.index.append(temp_pattern_name)
-
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
     source.stream(new_data, rollover=1)
@@ -229,6 +227,7 @@ def reset_prev_pattern():
     temp_pattern_name = lib.index.pop(-1)
     lib.index.insert(0, temp_pattern_name)
     temp_pattern_name = lib.index.pop(-1)
+    lib.index.append(temp_pattern_name)
 
     pattern, pattern_meta =lib.load(temp_pattern_name)
     rule_string = pattern_meta["ca_config"]
@@ -242,8 +241,6 @@ def reset_prev_pattern():
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
             place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
-
-    lib.index.append(temp_pattern_name)
             
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
-- 
2.43.0


From 8dd67c009d718ac009fb5f2bf7493f46a6fc19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 51/54] fix: an animation never overwrites an earlier one of
 the same tag

---
 yuca/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/utils.py b/yuca/utils.py
index f621fc6..b81e10e 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -176,6 +176,10 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     else:
         os.makedirs(gif_path)
 
+    # an earlier animation is never overwritten
+    while os.path.exists(os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif")):
+        gif_id += 1
+
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
     first_frame.save(gif_path, format="GIF", append_images=frames, \
-- 
2.43.0


From 340e04b6875f0896307d960e49bd47c1e4d8a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 52/54] fix: layers made anew keep evaluation mode

---
 yuca/ca/neural.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index e85b2d0..3dbfef5 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -270,6 +270,9 @@ class NCA(CA):
             param[1].requires_grad = False
             param[1][:] = param[1][:]**2 # self.neighborhood_kernels
 
+        # new layers are in the mode (training or evaluation) of the automaton
+        self.weights_layer.train(self.training)
+
     def id_conv(self, universe):
         # shared with CCA
         
-- 
2.43.0


From f4f47d0d9e318df841cc7b37f92d1fd4d34c25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 53/54] fix: growth functions keep parameters of their own

---
 yuca/activations.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yuca/activations.py b/yuca/activations.py
index e8332c7..ced16c0 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -92,7 +92,7 @@ class Polynomial(nn.Module):
         if type(coefficients) is not torch.Tensor:
             coefficients = torch.tensor(coefficients)
 
-        self.coefficients = nn.Parameter(coefficients.to(torch.get_default_dtype()))
+        self.coefficients = nn.Parameter(coefficients.to(torch.get_default_dtype(), copy=True))
 
         self.register_parameter("coef", self.coefficients)
 
@@ -130,8 +130,8 @@ class CosOverX2(nn.Module):
         if type(omega) is not torch.Tensor:
             omega = torch.tensor(omega)
 
-        self.mu = nn.Parameter(mu.to(torch.get_default_dtype()))
-        self.omega = nn.Parameter(omega.to(torch.get_default_dtype()))
+        self.mu = nn.Parameter(mu.to(torch.get_default_dtype(), copy=True))
+        self.omega = nn.Parameter(omega.to(torch.get_default_dtype(), copy=True))
 
         self.register_parameter("mu", self.mu)
         self.register_parameter("omega", self.omega)
@@ -186,8 +186,8 @@ class Gaussian(nn.Module):
         if type(sigma) is not torch.Tensor:
             sigma = torch.tensor([sigma])
 
-        self.mu = nn.Parameter(mu.to(torch.get_default_dtype()))
-        self.sigma = nn.Parameter(sigma.to(torch.get_default_dtype()))
+        self.mu = nn.Parameter(mu.to(torch.get_default_dtype(), copy=True))
+        self.sigma = nn.Parameter(sigma.to(torch.get_default_dtype(), copy=True))
 
         self.register_parameter("mu", self.mu)
         self.register_parameter("sigma", self.sigma)
@@ -306,8 +306,8 @@ class DoubleGaussian(nn.Module):
         if sigma.shape[0] == 1:
             sigma = torch.cat([sigma, sigma])
 
-        self.mu = nn.Parameter(mu.to(torch.get_default_dtype()))
-        self.sigma = nn.Parameter(sigma.to(torch.get_default_dtype()))
+        self.mu = nn.Parameter(mu.to(torch.get_default_dtype(), copy=True))
+        self.sigma = nn.Parameter(sigma.to(torch.get_default_dtype(), copy=True))
 
         self.register_parameter("mu", self.mu)
         self.register_parameter("sigma", self.sigma)
@@ -349,8 +349,8 @@ class DoGaussian(nn.Module):
         if type(sigma) is not torch.Tensor:
             sigma = torch.tensor([sigma])
 
-        self.mu = nn.Parameter(mu.to(torch.get_default_dtype()))
-        self.sigma = nn.Parameter(sigma.to(torch.get_default_dtype()))
+        self.mu = nn.Parameter(mu.to(torch.get_default_dtype(), copy=True))
+        self.sigma = nn.Parameter(sigma.to(torch.get_default_dtype(), copy=True))
 
         self.register_parameter("mu", self.mu)
         self.register_parameter("sigma", self.sigma)
-- 
2.43.0


From d1061e0be107f998ce854c0a8380fdb5eeba3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 54/54] fix: NCA can be made from a config without
 instant_kwargs

---
 yuca/ca/neural.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 3dbfef5..9eebd5b 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -71,13 +71,11 @@ class NCA(CA):
             print(f"Defaulting to Gaussian activation function")
             self.act = Gaussian
 
+        self.default_init()
+
         if "ca_config" in kwargs.keys():
             if kwargs["ca_config"] is not None:
                 self.restore_config(kwargs["ca_config"])
-            else:
-                self.default_init()
-        else:
-            self.default_init()
 
         self.reset()
 
-- 
2.43.0

