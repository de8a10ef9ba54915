From 33c436e096f39c249544610653d3918bb3e1a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:07 +0000
Subject: [PATCH 01/22] fix: make first use of the fluid service safe from
 several threads

A second thread asking for the service while the first one is still creating it
could get an instance whose caches do not exist yet.
---
 src/ecalc_neqsim_wrapper/fluid_service.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ecalc_neqsim_wrapper/fluid_service.py b/src/ecalc_neqsim_wrapper/fluid_service.py
index d81c4f1..a605fcc 100644
--- a/src/ecalc_neqsim_wrapper/fluid_service.py
+++ b/src/ecalc_neqsim_wrapper/fluid_service.py
@@ -11,6 +11,7 @@ from __future__ import annotations
 
 import dataclasses
 import logging
+import threading
 from typing import ClassVar
 
 from ecalc_neqsim_wrapper.cache_service import CacheConfig, CacheName, CacheService, LRUCache
@@ -64,12 +65,14 @@ class NeqSimFluidService(FluidService):
 
     _instance: ClassVar[NeqSimFluidService | None] = None
     _cache_config: ClassVar[CacheConfig | None] = None
+    _singleton_lock: ClassVar[threading.RLock] = threading.RLock()
 
     def __new__(cls):
         """Enforce singleton pattern by always returning the same instance."""
-        if cls._instance is None:
-            cls._instance = super().__new__(cls)
-        return cls._instance
+        with cls._singleton_lock:
+            if cls._instance is None:
+                cls._instance = super().__new__(cls)
+            return cls._instance
 
     @classmethod
     def configure(cls, cache_config: CacheConfig) -> None:
@@ -116,7 +119,6 @@ class NeqSimFluidService(FluidService):
         # Guard against re-initialization if __init__ is called multiple times
         if hasattr(self, "_initialized"):
             return
-        self._initialized = True
 
         # Use configured sizes or defaults
         if self._cache_config is not None:
@@ -142,13 +144,13 @@ class NeqSimFluidService(FluidService):
         self._flash_cache: LRUCache = CacheService.create_cache(
             CacheName.FLUID_SERVICE_FLASH, max_size=config.flash_max_size
         )
+        # Set last: a concurrent first use must not see an instance without its caches as initialized
+        self._initialized = True
 
     @classmethod
     def instance(cls) -> NeqSimFluidService:
         """Get the singleton instance of the service."""
-        if cls._instance is None:
-            cls._instance = cls()
-        return cls._instance
+        return cls()
 
     @classmethod
     def reset_instance(cls) -> None:
-- 
2.43.0


From 039654a14d83685980337d79df6e826e99d1a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:06 +0000
Subject: [PATCH 02/22] fix: let a cache size of 0 on the command line disable
 the cache

0 is falsy, so the default size was used instead.
---
 src/ecalc_cli/commands/run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index 0976f23..e45d30e 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -133,8 +133,10 @@ def run(
     if reference_cache_size is not None or flash_cache_size is not None:
         defaults = CacheConfig.default()
         config = CacheConfig(
-            reference_fluid_max_size=reference_cache_size or defaults.reference_fluid_max_size,
-            flash_max_size=flash_cache_size or defaults.flash_max_size,
+            reference_fluid_max_size=defaults.reference_fluid_max_size
+            if reference_cache_size is None
+            else reference_cache_size,
+            flash_max_size=defaults.flash_max_size if flash_cache_size is None else flash_cache_size,
         )
         NeqSimFluidService.configure(config)
 
-- 
2.43.0


From 826c9d3795f331165a0e5e1c444e404ced1262e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 03/22] fix: shut down the Java process of the service that is
 being shut down

If the gateway could not be reached, the Java process was left running, and the
service kept its gateway, so that shutting it down again took down a newer one.
---
 src/ecalc_neqsim_wrapper/java_service.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ecalc_neqsim_wrapper/java_service.py b/src/ecalc_neqsim_wrapper/java_service.py
index 19d3d4b..56597e9 100644
--- a/src/ecalc_neqsim_wrapper/java_service.py
+++ b/src/ecalc_neqsim_wrapper/java_service.py
@@ -290,11 +290,14 @@ class NeqsimPy4JService(NeqsimService):
         CacheService.clear_all()
 
         global _neqsim_service
+        gateway, self._gateway = self._gateway, None
         try:
-            if type(_neqsim_service) is NeqsimPy4JService:
-                _neqsim_service._gateway.shutdown()
-                _neqsim_service._gateway = None
+            gateway.shutdown()
         except Exception:
             _logger.exception("Java gateway close failed")
         finally:
-            _neqsim_service = None
+            if gateway.java_process.poll() is None:
+                # The shutdown request is lost if the connection is gone, do not leave the process behind
+                gateway.java_process.terminate()
+            if _neqsim_service is self:
+                _neqsim_service = None
-- 
2.43.0


From 7de6337aa32e146c54b7f7e3763e188036fc5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 04/22] fix: start a new Java process when the kept one has
 died

With shutdown_on_exit=False a crashed Java process was handed out for ever.
---
 src/ecalc_neqsim_wrapper/java_service.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecalc_neqsim_wrapper/java_service.py b/src/ecalc_neqsim_wrapper/java_service.py
index 56597e9..83ac198 100644
--- a/src/ecalc_neqsim_wrapper/java_service.py
+++ b/src/ecalc_neqsim_wrapper/java_service.py
@@ -250,6 +250,10 @@ class NeqsimPy4JService(NeqsimService):
     def initialize(cls) -> Self:
         _logger.info("NeqsimPy4JService.initialize() called")
         global _neqsim_service
+        if type(_neqsim_service) is NeqsimPy4JService and not _neqsim_service._is_running():
+            _logger.warning("The neqsim process has ended unexpectedly, starting a new one")
+            _neqsim_service.shutdown()
+
         if _neqsim_service is None:
             # We are bypassing __init__ by calling __new__ directly instead
             _neqsim_service = cls.__new__(cls)
@@ -262,6 +266,9 @@ class NeqsimPy4JService(NeqsimService):
 
         return _neqsim_service
 
+    def _is_running(self) -> bool:
+        return self._gateway is not None and self._gateway.java_process.poll() is None
+
     def __enter__(self):
         return self
 
-- 
2.43.0


From 98a6a60006ab13271dd24b27257753ded3f84f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 05/22] fix: start and shut down the Java backend under a lock

Two threads starting the backend at the same time launched two Java processes,
one of which was never shut down.
---
 src/ecalc_neqsim_wrapper/java_service.py | 89 +++++++++++++-----------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/src/ecalc_neqsim_wrapper/java_service.py b/src/ecalc_neqsim_wrapper/java_service.py
index 83ac198..e07abfe 100644
--- a/src/ecalc_neqsim_wrapper/java_service.py
+++ b/src/ecalc_neqsim_wrapper/java_service.py
@@ -1,6 +1,7 @@
 import logging
 import os
 import re
+import threading
 from abc import ABC, abstractmethod
 from contextlib import AbstractContextManager
 from dataclasses import dataclass
@@ -53,6 +54,9 @@ class Py4JConfig:
 # Either use NeqsimPy4JService or NeqsimJPypeService, cannot change once instantiated, ie the Python process lifetime
 _neqsim_service: Optional["NeqsimService"] = None
 
+# Starting, replacing and shutting down the service must be seen as one step by other threads
+_neqsim_service_lock = threading.RLock()
+
 _local_os_name = os.name
 _colon = ":"
 if _local_os_name == "nt":
@@ -189,17 +193,18 @@ class NeqsimJPypeService(NeqsimService):
         # jneqsim starts the JVM at import time and doesn't accept memory args.
         _logger.info("NeqsimJPypeService.initialize() called")
         global _neqsim_service
-        if _neqsim_service is None:
-            # We are bypassing __init__ by calling __new__ directly instead
-            _neqsim_service = cls.__new__(cls)
-            return _neqsim_service
+        with _neqsim_service_lock:
+            if _neqsim_service is None:
+                # We are bypassing __init__ by calling __new__ directly instead
+                _neqsim_service = cls.__new__(cls)
+                return _neqsim_service
 
-        if type(_neqsim_service) is not NeqsimJPypeService:
-            raise ProgrammingError(
-                "NeqsimService is already initialized with a different implementation, and can only be initialized once."
-            )
+            if type(_neqsim_service) is not NeqsimJPypeService:
+                raise ProgrammingError(
+                    "NeqsimService is already initialized with a different implementation, and can only be initialized once."
+                )
 
-        return _neqsim_service
+            return _neqsim_service
 
     def get_neqsim_module(self):
         import jneqsim
@@ -250,21 +255,22 @@ class NeqsimPy4JService(NeqsimService):
     def initialize(cls) -> Self:
         _logger.info("NeqsimPy4JService.initialize() called")
         global _neqsim_service
-        if type(_neqsim_service) is NeqsimPy4JService and not _neqsim_service._is_running():
-            _logger.warning("The neqsim process has ended unexpectedly, starting a new one")
-            _neqsim_service.shutdown()
+        with _neqsim_service_lock:
+            if type(_neqsim_service) is NeqsimPy4JService and not _neqsim_service._is_running():
+                _logger.warning("The neqsim process has ended unexpectedly, starting a new one")
+                _neqsim_service.shutdown()
 
-        if _neqsim_service is None:
-            # We are bypassing __init__ by calling __new__ directly instead
-            _neqsim_service = cls.__new__(cls)
-            return _neqsim_service
+            if _neqsim_service is None:
+                # We are bypassing __init__ by calling __new__ directly instead
+                _neqsim_service = cls.__new__(cls)
+                return _neqsim_service
 
-        if type(_neqsim_service) is not NeqsimPy4JService:
-            raise ProgrammingError(
-                "NeqsimService is already initialized with a different implementation, and can only be initialized once."
-            )
+            if type(_neqsim_service) is not NeqsimPy4JService:
+                raise ProgrammingError(
+                    "NeqsimService is already initialized with a different implementation, and can only be initialized once."
+                )
 
-        return _neqsim_service
+            return _neqsim_service
 
     def _is_running(self) -> bool:
         return self._gateway is not None and self._gateway.java_process.poll() is None
@@ -285,26 +291,27 @@ class NeqsimPy4JService(NeqsimService):
         """
         Exposed as public method for testing only. In production code use context manager.
         """
-        if self._gateway is None:
-            return
+        with _neqsim_service_lock:
+            if self._gateway is None:
+                return
 
-        _logger.info("NeqsimPy4JService.shutdown called")
-        _logger.info(
-            f"Killing neqsim process with PID '{self._gateway.java_process.pid}' on port '{self._gateway.gateway_parameters.port}'"
-        )
+            _logger.info("NeqsimPy4JService.shutdown called")
+            _logger.info(
+                f"Killing neqsim process with PID '{self._gateway.java_process.pid}' on port '{self._gateway.gateway_parameters.port}'"
+            )
 
-        # Clear all registered caches before shutdown - cached objects hold JVM references that will become invalid
-        CacheService.clear_all()
+            # Clear all registered caches before shutdown - cached objects hold JVM references that will become invalid
+            CacheService.clear_all()
 
-        global _neqsim_service
-        gateway, self._gateway = self._gateway, None
-        try:
-            gateway.shutdown()
-        except Exception:
-            _logger.exception("Java gateway close failed")
-        finally:
-            if gateway.java_process.poll() is None:
-                # The shutdown request is lost if the connection is gone, do not leave the process behind
-                gateway.java_process.terminate()
-            if _neqsim_service is self:
-                _neqsim_service = None
+            global _neqsim_service
+            gateway, self._gateway = self._gateway, None
+            try:
+                gateway.shutdown()
+            except Exception:
+                _logger.exception("Java gateway close failed")
+            finally:
+                if gateway.java_process.poll() is None:
+                    # The shutdown request is lost if the connection is gone, do not leave the process behind
+                    gateway.java_process.terminate()
+                if _neqsim_service is self:
+                    _neqsim_service = None
-- 
2.43.0


From be2ffafccf5791182f48e24d2f37736109244bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:25 +0000
Subject: [PATCH 06/22] fix: end with a failing exit status when eCalc reports
 an error

main() logged an EcalcError (a missing file, an invalid model, a failed
calculation) and then returned normally, so the process ended with status 0
although nothing had been calculated.
---
 src/ecalc_cli/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecalc_cli/main.py b/src/ecalc_cli/main.py
index fc6afda..3fc3d7c 100755
--- a/src/ecalc_cli/main.py
+++ b/src/ecalc_cli/main.py
@@ -1,3 +1,4 @@
+import sys
 from pathlib import Path
 
 import typer
@@ -82,6 +83,7 @@ def main():
             logger.exception(f"An unexpected error occurred when running eCalc: {str(ee)}")
         else:
             logger.error(str(ee))
+        sys.exit(1)
     except Exception as e:
         logger.exception("An unhandled error occurred when running eCalc")  # in order to write to log
         raise e  # in order for Typer to catch it and prettyprint it
-- 
2.43.0


From 1ca95ef478c753b33e3f6f85cb1121ed93b398dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 07/22] fix: do not hide a lost fluid service when finding
 roots

find_root fell back to the secant method on any exception, so a connection to
the Java process lost during the search only changed the result.
---
 src/libecalc/common/errors/exceptions.py        | 4 ++++
 src/libecalc/common/numeric_methods.py          | 4 +++-
 src/libecalc/process/fluid_stream/exceptions.py | 6 +-----
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/common/errors/exceptions.py b/src/libecalc/common/errors/exceptions.py
index f27a0d7..036c7ba 100644
--- a/src/libecalc/common/errors/exceptions.py
+++ b/src/libecalc/common/errors/exceptions.py
@@ -132,3 +132,7 @@ class NoColumnsException(InvalidResourceException):
 
     def __init__(self):
         super().__init__("No columns", "The resource contains no columns, it should have at least one.")
+
+
+class FluidFlashCalculationError(Exception):
+    """Base exception for fluid-service flash calculation failures."""
diff --git a/src/libecalc/common/numeric_methods.py b/src/libecalc/common/numeric_methods.py
index 757ab85..4fe1e98 100644
--- a/src/libecalc/common/numeric_methods.py
+++ b/src/libecalc/common/numeric_methods.py
@@ -4,6 +4,7 @@ from dataclasses import dataclass
 import numpy as np
 from scipy.optimize import root_scalar
 
+from libecalc.common.errors.exceptions import EcalcError, FluidFlashCalculationError
 from libecalc.common.logger import logger
 
 # Constants
@@ -110,7 +111,8 @@ def find_root(
             )
             logger.error(msg)
         return result.root
-    except Exception as e:
+    except (ValueError, ArithmeticError, EcalcError, FluidFlashCalculationError) as e:
+        # Other errors, e.g. a lost connection to the fluid service, say nothing about the root
         logger.error(
             f"Failed to find roots using Brent's method. Please report to the eCalc team."
             f" Bound to the interval [{lower_bound}, {upper_bound}], function: {func}"
diff --git a/src/libecalc/process/fluid_stream/exceptions.py b/src/libecalc/process/fluid_stream/exceptions.py
index 70760c0..7cac60c 100644
--- a/src/libecalc/process/fluid_stream/exceptions.py
+++ b/src/libecalc/process/fluid_stream/exceptions.py
@@ -1,4 +1,4 @@
-from libecalc.common.errors.exceptions import EcalcError
+from libecalc.common.errors.exceptions import EcalcError, FluidFlashCalculationError  # noqa: F401
 
 
 ### Fluid Composition Error
@@ -79,7 +79,3 @@ class NonPositivePressureException(InvalidProcessConditionsException):
 
     def __init__(self, parameter_name: str, pressure_bara: float):
         super().__init__(reason=f"Pressure for {parameter_name} must be positive, got {pressure_bara} bara")
-
-
-class FluidFlashCalculationError(Exception):
-    """Base exception for fluid-service flash calculation failures."""
-- 
2.43.0


From 8bff1896865732e373638c8976256893985453a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 08/22] fix: do not report a lost NeqSim process as a failed
 flash

A connection lost during a flash was turned into NeqsimFlashCalculationError,
which the solvers treat as an infeasible operating point: the evaluation went
on and reported another speed, rate or capacity.
---
 src/ecalc_neqsim_wrapper/exceptions.py | 25 ++++++++++++++++++++++++-
 src/ecalc_neqsim_wrapper/thermo.py     |  6 ++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/ecalc_neqsim_wrapper/exceptions.py b/src/ecalc_neqsim_wrapper/exceptions.py
index 4949257..db0b2b5 100644
--- a/src/ecalc_neqsim_wrapper/exceptions.py
+++ b/src/ecalc_neqsim_wrapper/exceptions.py
@@ -1,5 +1,9 @@
 from jpype import JException  # pyright: ignore[reportMissingTypeStubs]
-from py4j.protocol import Py4JError  # pyright: ignore[reportMissingTypeStubs]
+from py4j.protocol import (  # pyright: ignore[reportMissingTypeStubs]
+    Py4JError,
+    Py4JJavaError,
+    Py4JNetworkError,
+)
 
 from libecalc.process.fluid_stream.exceptions import FluidFlashCalculationError
 
@@ -9,12 +13,31 @@ from libecalc.process.fluid_stream.exceptions import FluidFlashCalculationError
 JAVA_ERRORS: tuple[type[Exception], ...] = (Py4JError, JException)
 
 
+def is_connection_error(error: BaseException) -> bool:
+    """Whether the connection to the Java process failed, as opposed to the calculation made there.
+
+    Py4J raises Py4JNetworkError when it cannot connect, and a plain Py4JError with the message below (and no Java
+    exception) when the connection is lost while waiting for an answer.
+    """
+    if isinstance(error, Py4JJavaError):
+        return False
+    return isinstance(error, Py4JNetworkError) or (
+        isinstance(error, Py4JError) and str(error).startswith("An error occurred while calling")
+    )
+
+
 class NeqsimError(Exception):
     """Base class for NeqSim related errors"""
 
     pass
 
 
+class NeqsimConnectionError(NeqsimError):
+    """Error raised when the connection to the NeqSim process is lost. Says nothing about the calculation asked for."""
+
+    pass
+
+
 class NeqsimPhaseError(NeqsimError):
     """Error raised when there's an issue with phase handling in NeqSim"""
 
diff --git a/src/ecalc_neqsim_wrapper/thermo.py b/src/ecalc_neqsim_wrapper/thermo.py
index 8e5d28f..c7063d1 100644
--- a/src/ecalc_neqsim_wrapper/thermo.py
+++ b/src/ecalc_neqsim_wrapper/thermo.py
@@ -15,8 +15,10 @@ from ecalc_neqsim_wrapper.components import COMPONENTS
 from ecalc_neqsim_wrapper.exceptions import (
     JAVA_ERRORS,
     NeqsimComponentError,
+    NeqsimConnectionError,
     NeqsimFlashCalculationError,
     NeqsimPhaseError,
+    is_connection_error,
 )
 from ecalc_neqsim_wrapper.java_service import NeqsimService
 from ecalc_neqsim_wrapper.mappings import (
@@ -386,6 +388,8 @@ class NeqsimFluid:
                 use_gerg=self._use_gerg,
             )
         except JAVA_ERRORS as error:
+            if is_connection_error(error):
+                raise NeqsimConnectionError("Lost the connection to the NeqSim process.") from error
             raise NeqsimFlashCalculationError(
                 "NeqSim PH flash failed. "
                 f"pressure_bara={new_pressure}, target_enthalpy_joule_per_kg={new_enthalpy_joule_per_kg}."
@@ -410,6 +414,8 @@ class NeqsimFluid:
                 thermodynamic_system=new_thermodynamic_system, use_gerg=self._use_gerg
             )
         except JAVA_ERRORS as error:
+            if is_connection_error(error):
+                raise NeqsimConnectionError("Lost the connection to the NeqSim process.") from error
             raise NeqsimFlashCalculationError(
                 "NeqSim TP flash failed. "
                 f"pressure_bara={new_pressure_bara}, temperature_kelvin={new_temperature_kelvin}."
-- 
2.43.0


From 50357b20a59f281c1c3d97f833325add94cf0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:06 +0000
Subject: [PATCH 09/22] fix: let the maximum rate of a train not depend on what
 was evaluated before

---
 src/libecalc/domain/process/compressor/core/train/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 49a2051..3e271c7 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -396,6 +396,8 @@ class CompressorTrainModel(ABC):
                 max_standard_rate[i] = 0.0
                 continue
 
+            # The maximum rate must not depend on recirculation left behind by whatever was evaluated before
+            self.reset_rate_modifiers()
             constraints = CompressorTrainEvaluationInput(
                 suction_pressure=suction_pressure_value,
                 discharge_pressure=discharge_pressure_value,
-- 
2.43.0


From d0096629e2296d3b29dba30180fecc2c678f02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 10/22] fix: let two runs create the same output folder at the
 same time

---
 src/ecalc_cli/commands/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index e45d30e..83bc27f 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -277,4 +277,4 @@ def validate_arguments(model_file: Path, output_folder: Path):
         )
 
     if not output_folder.is_dir():
-        output_folder.mkdir()
+        output_folder.mkdir(exist_ok=True)  # another run may have created it in the meantime
-- 
2.43.0


From f4fbdcbda74b853746c5c246503d1d18e98220af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 11/22] fix: a failed validation no longer leaves the model
 marked as validated

validate_for_run set the validated flag before mapping the model, so a second call after a failed mapping
returned as if the model was valid. Time series read in the failed attempt and the half-filled mapping context
were also reused by the next attempt.
---
 src/libecalc/presentation/yaml/model.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/libecalc/presentation/yaml/model.py b/src/libecalc/presentation/yaml/model.py
index 42c9105..80d454a 100644
--- a/src/libecalc/presentation/yaml/model.py
+++ b/src/libecalc/presentation/yaml/model.py
@@ -146,7 +146,6 @@ class YamlModel:
 
         self._consumer_results: dict[EnergyContainerID, ComponentResult] = {}
 
-        self._time_series_collections: TimeSeriesCollections | None = None
         self._variables: VariablesMap | None = None
         self._mapping_context = MappingContext(target_period=self.period)
 
@@ -287,15 +286,10 @@ class YamlModel:
     def _get_time_series_collections(
         self, time_series_resources: dict[str, TimeSeriesResource]
     ) -> TimeSeriesCollections:
-        if self._time_series_collections is not None:
-            return self._time_series_collections
-
-        time_series_collections = TimeSeriesCollections.create(
+        return TimeSeriesCollections.create(
             time_series=self._configuration.time_series,
             resources=time_series_resources,
         )
-        self._time_series_collections = time_series_collections
-        return self._time_series_collections
 
     def _get_periods(self, time_series_time_vector: Iterable[datetime]) -> Periods:
         assert self._configuration.end is not None
@@ -415,8 +409,9 @@ class YamlModel:
 
             reference_service = self._get_reference_service()
 
-            # Is validated, first step, must be set before calling get_graph
-            self._is_validated = True
+            # Start from an empty mapping context, an earlier failed attempt may have left parts of the model behind
+            self._mapping_context = MappingContext(target_period=self.period)
+
             # Validate and create the graph used for evaluating the energy model
             model_mapper = EcalcModelMapper(
                 resources=facility_resources,
@@ -428,6 +423,7 @@ class YamlModel:
             )
 
             self._input = model_mapper.from_yaml_to_domain(model_id=self._id, model_name=self._configuration.name)
+            self._is_validated = True
 
             return self
         except InvalidVariablesException as e:
-- 
2.43.0


From f32a9807e2dc837e006e50c394d0f654dc77ea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 12/22] fix: !include of one model no longer leaks into other
 models being read

The constructor was registered on the shared loader class, so a reader without includes, or one working in another
thread, resolved includes with the base directory or resources of another model.
---
 .../presentation/yaml/yaml_models/pyyaml_yaml_model.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 8fa31b6..e33deb5 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -161,9 +161,13 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
             base_dir: Path | None = None,
             resources: dict[str, TextIO] | None = None,
         ):
-            self.__loader = loader
+            class Loader(loader):  # type: ignore[misc, valid-type]
+                # A class of its own, since a constructor added to a shared loader class affects all other readers
+                pass
+
+            self.__loader = Loader
             if enable_include and (base_dir or resources):
-                loader.add_constructor(
+                Loader.add_constructor(
                     "!include",
                     PyYamlYamlModel.IncludeConstructor(base_dir=base_dir, resources=resources),
                 )
-- 
2.43.0


From 2bb8d6d85dd7b3d486e3d7057b668e002657589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 13/22] fix: ruamel reader registers !include on a constructor
 class of its own

Registering it on the shared RoundTripConstructor made later readers with includes disabled resolve includes of an
earlier model.
---
 .../presentation/yaml/yaml_models/ruamel_yaml_model.py    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py
index 3d7123d..5e62020 100644
--- a/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py
@@ -2,7 +2,7 @@ import io
 from pathlib import Path
 from typing import Any, TextIO
 
-from ruamel.yaml import YAML, YAMLError
+from ruamel.yaml import YAML, RoundTripConstructor, YAMLError
 
 from libecalc.common.errors.exceptions import (
     ProgrammingError,
@@ -70,6 +70,12 @@ class RuamelYamlModel(YamlConfiguration):
 
         if enable_include:
 
+            class Constructor(RoundTripConstructor):
+                # A class of its own, since a constructor registered on the shared class affects all other readers
+                pass
+
+            yaml_loader.Constructor = Constructor
+
             @yaml_loader.register_class
             class IncludeConstructor:
                 yaml_tag = "!include"
-- 
2.43.0


From b75780968b5c68d2556c3d137936957c3eaaf5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 14/22] fix: refuse CSV resources with null characters

The parser takes a null character as the end of a value, so a file with a block of zero bytes was read as other
numbers.
---
 src/libecalc/presentation/yaml/yaml_entities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index 89f64bf..0230ae5 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -73,6 +73,10 @@ class MemoryResource(Resource):
         Returns:
             MemoryResource.
         """
+        if "\0" in csv_data:
+            # The parser takes a null character as the end of the value, i.e. a damaged file would be misread
+            raise InvalidResourceException(title="Invalid CSV data", message="The file contains null characters.")
+
         try:
             df_resource = pd.read_csv(
                 StringIO(csv_data), comment="#", float_precision="round_trip", skipinitialspace=True, thousands=" "
-- 
2.43.0


From f6c2a2b8404a6f8fbc6db5f721a2198e821389cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 15/22] fix: an optional column with unreadable values is an
 error, not a missing column

---
 src/libecalc/presentation/yaml/mappers/facility_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index b789dc2..8a84c55 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,4 @@
-from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.errors.exceptions import HeaderNotFoundException
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
 from libecalc.domain.resource import Resource
@@ -13,7 +13,7 @@ from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model im
 def _get_float_column_or_none(resource: Resource, header: str) -> list[float] | None:
     try:
         return resource.get_float_column(header)
-    except InvalidResourceException:
+    except HeaderNotFoundException:
         return None
 
 
-- 
2.43.0


From d28add1ba71186ba15eb545d9badceda2b20eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 16/22] fix: a damaged upload is refused as such

Damaged, encrypted or unsupported archive contents raised whatever the decompressor raises, and a YAML file that is
not UTF-8 raised UnicodeDecodeError, instead of an eCalc error. A folder in the working directory with the name of
an archive member made that member silently disappear.
---
 src/libecalc/infrastructure/file_io.py | 52 ++++++++++++++++++--------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/libecalc/infrastructure/file_io.py b/src/libecalc/infrastructure/file_io.py
index 88e8d03..f6eaff0 100644
--- a/src/libecalc/infrastructure/file_io.py
+++ b/src/libecalc/infrastructure/file_io.py
@@ -32,7 +32,7 @@ def is_main_yaml_file(file: IO) -> bool:
 
 
 def is_ignored_zip_content(file: Path) -> bool:
-    return bool(file.is_dir() or any(substring in str(file) for substring in IGNORED_ZIP_CONTENTS_KEYWORDS))
+    return any(substring in str(file) for substring in IGNORED_ZIP_CONTENTS_KEYWORDS)
 
 
 class FileWithName(Protocol):
@@ -115,7 +115,14 @@ class ValidEcalcFile(EcalcFile):
     def is_main_yaml_file(self) -> bool:
         bytes_str = self.file.read()
         self.file.seek(0)
-        text_obj = bytes_str.decode("UTF-8")
+        try:
+            text_obj = bytes_str.decode("UTF-8")
+        except UnicodeDecodeError as e:
+            raise EcalcError(
+                title="Bad file",
+                message=f"The file {self.filename} is not a valid text file (UTF-8)",
+                error_type=EcalcErrorType.CLIENT_ERROR,
+            ) from e
         return any(x in text_obj for x in MAIN_PROVEN_FILE)
 
 
@@ -325,6 +332,20 @@ def make_relative_paths(files: list[ValidEcalcFile], main_yaml: ValidEcalcFile)
     return relative_paths
 
 
+def _read_zip_member(archive: zipfile.ZipFile, zip_info: zipfile.ZipInfo) -> bytes:
+    """Read the contents of a file in a zip archive that is already in memory.
+
+    :param archive:
+    :param zip_info:
+    :return:
+    """
+    try:
+        return archive.read(zip_info)
+    except Exception as e:
+        # Which error it is for damaged, encrypted or unsupported contents depends on the compression method
+        raise zipfile.BadZipFile(f"Could not read {zip_info.filename}") from e
+
+
 def unpack_zip(file: IO) -> tuple[list[ValidEcalcFile], list[InvalidEcalcFile]]:
     """Unpack the zip similarility to how single files are handled, by returning a tuple
     of valid and invalid files.
@@ -334,8 +355,9 @@ def unpack_zip(file: IO) -> tuple[list[ValidEcalcFile], list[InvalidEcalcFile]]:
     """
     valid_files: list[ValidEcalcFile] = []
     invalid_files: list[InvalidEcalcFile] = []
+    zip_content = file.read()
     try:
-        with zipfile.ZipFile(BytesIO(file.read())) as archive:
+        with zipfile.ZipFile(BytesIO(zip_content)) as archive:
             for zip_info in archive.infolist():
                 try:
                     file_path = Path(zip_info.filename)
@@ -344,18 +366,18 @@ def unpack_zip(file: IO) -> tuple[list[ValidEcalcFile], list[InvalidEcalcFile]]:
                         # Just ignore, dont event mention it. Will just confuse users (because those files are normally hidden)
                         continue
                     elif EcalcFile.is_csv(file_path) or EcalcFile.is_yaml(file_path):
-                        with archive.open(zip_info) as file:
-                            file_like = TemporaryFile()
-                            file_like.write(file.read())
-                            file_like.seek(0)
-                            valid_files.append(
-                                ValidEcalcFile(
-                                    original_filename=file_path,
-                                    filename=file_path.name,
-                                    file=file_like,
-                                    file_type=EcalcFile.get_type(filename=file_path),
-                                )
+                        file_content = _read_zip_member(archive, zip_info)
+                        file_like = TemporaryFile()
+                        file_like.write(file_content)
+                        file_like.seek(0)
+                        valid_files.append(
+                            ValidEcalcFile(
+                                original_filename=file_path,
+                                filename=file_path.name,
+                                file=file_like,
+                                file_type=EcalcFile.get_type(filename=file_path),
                             )
+                        )
                     else:
                         invalid_files.append(
                             InvalidEcalcFile(
@@ -380,5 +402,5 @@ def unpack_zip(file: IO) -> tuple[list[ValidEcalcFile], list[InvalidEcalcFile]]:
 
         return valid_files, invalid_files
 
-    except zipfile.BadZipFile as e:
+    except (zipfile.BadZipFile, NotImplementedError, ValueError, OverflowError) as e:
         raise EcalcError(title="Bad zip file", message="An error occurred while unpacking the zip file") from e
-- 
2.43.0


From 5685cdaa1f8577daeb07b73042c7574f43b67330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 17/22] fix: upstream choke returns the anti-surge settings of
 the returned choke setting

---
 .../process/process_solver/pressure_control/upstream_choke.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index 7eb2d1a..3e103f6 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -78,6 +78,9 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
             return self._simulator.run(inlet_stream=inlet_stream)
 
         finding = finder.find(choke_func)
+        # The last choke probe of the search is not necessarily the one it settled on:
+        # the anti-surge settings returned must be those belonging to the returned choke setting.
+        choke_func(finding.configuration)
         choke_config = Configuration(
             configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration
         )
-- 
2.43.0


From cd0a15d04cb0c3c142f7dd259458a39e1415caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:38 +0000
Subject: [PATCH 18/22] fix: report an undefined density from the fluid backend
 as a failed flash

---
 src/ecalc_neqsim_wrapper/fluid_service.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_neqsim_wrapper/fluid_service.py b/src/ecalc_neqsim_wrapper/fluid_service.py
index a605fcc..ee7ac50 100644
--- a/src/ecalc_neqsim_wrapper/fluid_service.py
+++ b/src/ecalc_neqsim_wrapper/fluid_service.py
@@ -21,7 +21,7 @@ from libecalc.process.fluid_stream.constants import ThermodynamicConstants
 from libecalc.process.fluid_stream.fluid import Fluid
 from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
 from libecalc.process.fluid_stream.fluid_properties import FluidProperties
-from libecalc.process.fluid_stream.fluid_property_validation import validate_ph_flash_result
+from libecalc.process.fluid_stream.fluid_property_validation import require_positive_finite, validate_ph_flash_result
 from libecalc.process.fluid_stream.fluid_service import FluidService
 from libecalc.process.fluid_stream.fluid_stream import FluidStream
 
@@ -266,7 +266,7 @@ class NeqSimFluidService(FluidService):
             are slow. FluidComposition.molar_mass_mixture computes this purely
             in Python from the component mole fractions.
         """
-        return FluidProperties(
+        properties = FluidProperties(
             temperature_kelvin=neqsim_fluid.temperature_kelvin,
             pressure_bara=neqsim_fluid.pressure_bara,
             density=neqsim_fluid.density,
@@ -277,6 +277,15 @@ class NeqSimFluidService(FluidService):
             molar_mass=fluid_model.composition.molar_mass_mixture,
             standard_density=self._get_standard_density(fluid_model),
         )
+        # An undefined density makes rates undefined, and an undefined rate is taken for no flow
+        for name in ("temperature_kelvin", "pressure_bara", "density", "standard_density"):
+            require_positive_finite(
+                getattr(properties, name),
+                name,
+                "NeqSimFluidService",
+                error_factory=NeqsimFlashCalculationError,
+            )
+        return properties
 
     def flash_pt(
         self,
-- 
2.43.0


From 423f5be588dd634b10865ff783d8a226666ccb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:36 +0000
Subject: [PATCH 19/22] fix: refuse CSV lines with more values than headers
 instead of shifting the columns

---
 src/libecalc/presentation/yaml/yaml_entities.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index 0230ae5..ce6359e 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -89,6 +89,13 @@ class MemoryResource(Resource):
         except ValueError as e:
             raise InvalidResourceException(title="Invalid resource", message=str(e)) from e
 
+        if not df_resource.empty and not isinstance(df_resource.index, pd.RangeIndex):
+            # More values than headers, the parser would take the first values as row labels and shift the columns
+            raise InvalidResourceException(
+                title="Invalid CSV data",
+                message=f"Expected {len(df_resource.columns)} fields, one or more lines have more fields than headers.",
+            )
+
         headers = df_resource.columns.str.strip().tolist()
         cls._validate_headers(headers)
 
-- 
2.43.0


From 380a00acca39c96793a8be5d1deef04f13d02a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:55 +0000
Subject: [PATCH 20/22] fix: give each item of a common stream its own rate
 fraction, whatever the overflow order

---
 .../process/stream_distribution/common_stream_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..045bf4b 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,7 +66,9 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
+            rate = rates[item_id]
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
             current_rate = rate + overflow_rate
-- 
2.43.0


From 4dac8a42b3e42c48824972f383085749af176da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:55 +0000
Subject: [PATCH 21/22] fix: only a feasible rate counts as the capacity of a
 compressor train

---
 .../process/process_solver/feasibility_solver.py    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/process/process_solver/feasibility_solver.py b/src/libecalc/process/process_solver/feasibility_solver.py
index a2ca9b1..1e55ff6 100644
--- a/src/libecalc/process/process_solver/feasibility_solver.py
+++ b/src/libecalc/process/process_solver/feasibility_solver.py
@@ -58,14 +58,13 @@ class FeasibilitySolver:
         upper_bound_sm3_per_day: float,
     ) -> float:
         boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
+
+        def probe(rate: float) -> BisectResult:
+            feasible = self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure)
+            return BisectResult(higher=feasible, accepted=feasible)
+
         try:
-            return self._search_strategy.search(
-                boundary=boundary,
-                func=lambda rate: BisectResult(
-                    higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure),
-                    accepted=True,
-                ),
-            )
+            return self._search_strategy.search(boundary=boundary, func=probe)
         except DidNotConvergeError:
             return 0.0
 
-- 
2.43.0


From 5ed03beb23653edf6658073d934ab5566a457ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 22/22] fix: share a stream also when a train that passes
 everything on leaves a rounding error

---
 .../process/stream_distribution/common_stream_distribution.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 045bf4b..ab72ac3 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -80,7 +80,8 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
                     temperature_kelvin=self._inlet_stream.temperature_kelvin,
                     pressure_bara=self._inlet_stream.pressure_bara,
                 )
-                excess_rate = item.get_excess_rate(stream)
+                # the rate of the stream is rounded, so all of it may be slightly more than current_rate
+                excess_rate = min(item.get_excess_rate(stream), current_rate)
                 handled_rate = current_rate - excess_rate
                 overflow_map[overflow.to_id].append(excess_rate)
                 adjusted_rates[item_id] = handled_rate
-- 
2.43.0

