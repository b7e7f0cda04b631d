From f43b5f95274dc96b3459077f5e9e95b6b2fd77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 01/50] fix: Container.close()/aclose() must not pop an
 unrelated resolver binding

---
 src/diwire/_internal/container.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index bac811d..3744049 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2851,7 +2851,11 @@ class Container:
             cleanup.
 
         """
-        return self.__exit__(exc_type, exc_value, traceback)
+        if self._root_resolver is None:
+            msg = "Container context exit called without a matching enter."
+            raise RuntimeError(msg)
+
+        return self._root_resolver.close(exc_type, exc_value, traceback)
 
     async def aclose(
         self,
@@ -2874,7 +2878,11 @@ class Container:
             owning a long-lived root resolver lifecycle explicitly.
 
         """
-        return await self.__aexit__(exc_type, exc_value, traceback)
+        if self._root_resolver is None:
+            msg = "Container async context exit called without a matching enter."
+            raise RuntimeError(msg)
+
+        return await self._root_resolver.aclose(exc_type, exc_value, traceback)
 
     # endregion Resolution and Scope Management
 
-- 
2.43.0


From 2d0611a34027cc78e123d7330c0278ff4923b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 02/50] fix: closing a container releases resources held by
 superseded root resolvers

---
 src/diwire/_internal/container.py | 103 ++++++++++++++++++++++++------
 1 file changed, 84 insertions(+), 19 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 3744049..cf003ce 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -186,6 +186,9 @@ class Container:
         self._injected_callable_inspector = InjectedCallableInspector()
 
         self._root_resolver: ResolverProtocol | None = None
+        # Former root resolvers, oldest first: resources they still hold are
+        # released when the container is closed.
+        self._retired_root_resolvers: list[ResolverProtocol] = []
         self._graph_revision: int = 0
         self._registration_mutation_depth: int = 0
         self._registration_mutation_snapshot: _ContainerGraphSnapshot | None = None
@@ -2473,6 +2476,8 @@ class Container:
         entrypoints must be reverted back to container methods until recompilation.
         """
         self._graph_revision += 1
+        if self._root_resolver is not None:
+            self._retired_root_resolvers.append(self._root_resolver)
         self._root_resolver = None
         self._restore_container_entrypoints()
 
@@ -2801,11 +2806,15 @@ class Container:
         Cleanup will happen ONLY if the resolver created resources that need to be cleaned up.
         Like context managers or generators.
         """
-        if self._root_resolver is None:
-            msg = "Container context exit called without a matching enter."
-            raise RuntimeError(msg)
-
-        return self._root_resolver.__exit__(exc_type, exc_value, traceback)
+        current, *retired = self._root_resolvers_newest_first(
+            missing_message="Container context exit called without a matching enter.",
+        )
+        self._run_root_exits(
+            exits=[current.__exit__, *(resolver.close for resolver in retired)],
+            exc_type=exc_type,
+            exc_value=exc_value,
+            traceback=traceback,
+        )
 
     def __aenter__(self) -> ResolverProtocol:
         """Asynchronously enter the resolver context."""
@@ -2823,11 +2832,15 @@ class Container:
         Cleanup will happen ONLY if the resolver created resources that need to be cleaned up.
         Like context managers or generators.
         """
-        if self._root_resolver is None:
-            msg = "Container async context exit called without a matching enter."
-            raise RuntimeError(msg)
-
-        return await self._root_resolver.__aexit__(exc_type, exc_value, traceback)
+        current, *retired = self._root_resolvers_newest_first(
+            missing_message="Container async context exit called without a matching enter.",
+        )
+        await self._run_root_aexits(
+            exits=[current.__aexit__, *(resolver.aclose for resolver in retired)],
+            exc_type=exc_type,
+            exc_value=exc_value,
+            traceback=traceback,
+        )
 
     def close(
         self,
@@ -2851,11 +2864,15 @@ class Container:
             cleanup.
 
         """
-        if self._root_resolver is None:
-            msg = "Container context exit called without a matching enter."
-            raise RuntimeError(msg)
-
-        return self._root_resolver.close(exc_type, exc_value, traceback)
+        resolvers = self._root_resolvers_newest_first(
+            missing_message="Container context exit called without a matching enter.",
+        )
+        self._run_root_exits(
+            exits=[resolver.close for resolver in resolvers],
+            exc_type=exc_type,
+            exc_value=exc_value,
+            traceback=traceback,
+        )
 
     async def aclose(
         self,
@@ -2878,11 +2895,59 @@ class Container:
             owning a long-lived root resolver lifecycle explicitly.
 
         """
-        if self._root_resolver is None:
-            msg = "Container async context exit called without a matching enter."
-            raise RuntimeError(msg)
+        resolvers = self._root_resolvers_newest_first(
+            missing_message="Container async context exit called without a matching enter.",
+        )
+        await self._run_root_aexits(
+            exits=[resolver.aclose for resolver in resolvers],
+            exc_type=exc_type,
+            exc_value=exc_value,
+            traceback=traceback,
+        )
+
+    def _root_resolvers_newest_first(self, *, missing_message: str) -> list[ResolverProtocol]:
+        resolvers = list(reversed(self._retired_root_resolvers))
+        if self._root_resolver is not None:
+            resolvers.insert(0, self._root_resolver)
+        if not resolvers:
+            raise RuntimeError(missing_message)
+        return resolvers
 
-        return await self._root_resolver.aclose(exc_type, exc_value, traceback)
+    def _run_root_exits(
+        self,
+        *,
+        exits: list[Callable[..., None]],
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        exit_error: BaseException | None = None
+        for root_exit in exits:
+            try:
+                root_exit(exc_type, exc_value, traceback)
+            except BaseException as error:  # noqa: BLE001, PERF203
+                if exit_error is None:
+                    exit_error = error
+        if exit_error is not None:
+            raise exit_error
+
+    async def _run_root_aexits(
+        self,
+        *,
+        exits: list[Callable[..., Awaitable[None]]],
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        exit_error: BaseException | None = None
+        for root_exit in exits:
+            try:
+                await root_exit(exc_type, exc_value, traceback)
+            except BaseException as error:  # noqa: BLE001, PERF203
+                if exit_error is None:
+                    exit_error = error
+        if exit_error is not None:
+            raise exit_error
 
     # endregion Resolution and Scope Management
 
-- 
2.43.0


From 4e70d5485ce39d1261abb992d35b4ead629973e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 03/50] fix: a refused registration keeps the compiled graph
 and its singletons

---
 src/diwire/_internal/container.py | 77 ++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index cf003ce..c6a79a6 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2496,22 +2496,7 @@ class Container:
     @contextmanager
     def _registration_mutation(self) -> Generator[None, None, None]:
         if self._registration_mutation_depth == 0:
-            self._registration_mutation_snapshot = _ContainerGraphSnapshot(
-                providers_registrations=self._providers_registrations.snapshot(),
-                open_generic_registry=self._open_generic_registry.snapshot(),
-                decoration_rules_by_provides={
-                    provides: list(rules)
-                    for provides, rules in self._decoration_rules_by_provides.items()
-                },
-                decoration_chain_by_provides={
-                    provides: _DecorationChain(
-                        base_key=chain.base_key,
-                        layer_keys=list(chain.layer_keys),
-                    )
-                    for provides, chain in self._decoration_chain_by_provides.items()
-                },
-                decoration_counter=self._decoration_counter,
-            )
+            self._registration_mutation_snapshot = self._capture_graph_snapshot()
             self._registration_mutation_failed = False
 
         self._registration_mutation_depth += 1
@@ -2527,24 +2512,52 @@ class Container:
             if self._registration_mutation_depth == 0:
                 if self._registration_mutation_failed:
                     snapshot = cast("_ContainerGraphSnapshot", self._registration_mutation_snapshot)
-                    self._providers_registrations.restore(snapshot.providers_registrations)
-                    self._open_generic_registry.restore(snapshot.open_generic_registry)
-                    self._decoration_rules_by_provides = {
-                        provides: list(rules)
-                        for provides, rules in snapshot.decoration_rules_by_provides.items()
-                    }
-                    self._decoration_chain_by_provides = {
-                        provides: _DecorationChain(
-                            base_key=chain.base_key,
-                            layer_keys=list(chain.layer_keys),
-                        )
-                        for provides, chain in snapshot.decoration_chain_by_provides.items()
-                    }
-                    self._decoration_counter = snapshot.decoration_counter
-                    self._invalidate_compilation()
+                    self._restore_graph_snapshot(snapshot)
                 self._registration_mutation_snapshot = None
                 self._registration_mutation_failed = False
 
+    def _capture_graph_snapshot(self) -> _ContainerGraphSnapshot:
+        return _ContainerGraphSnapshot(
+            providers_registrations=self._providers_registrations.snapshot(),
+            open_generic_registry=self._open_generic_registry.snapshot(),
+            decoration_rules_by_provides={
+                provides: list(rules)
+                for provides, rules in self._decoration_rules_by_provides.items()
+            },
+            decoration_chain_by_provides={
+                provides: _DecorationChain(
+                    base_key=chain.base_key,
+                    layer_keys=list(chain.layer_keys),
+                )
+                for provides, chain in self._decoration_chain_by_provides.items()
+            },
+            decoration_counter=self._decoration_counter,
+            root_resolver=self._root_resolver,
+            retired_root_resolvers=tuple(self._retired_root_resolvers),
+        )
+
+    def _restore_graph_snapshot(self, snapshot: _ContainerGraphSnapshot) -> None:
+        self._providers_registrations.restore(snapshot.providers_registrations)
+        self._open_generic_registry.restore(snapshot.open_generic_registry)
+        self._decoration_rules_by_provides = {
+            provides: list(rules)
+            for provides, rules in snapshot.decoration_rules_by_provides.items()
+        }
+        self._decoration_chain_by_provides = {
+            provides: _DecorationChain(
+                base_key=chain.base_key,
+                layer_keys=list(chain.layer_keys),
+            )
+            for provides, chain in snapshot.decoration_chain_by_provides.items()
+        }
+        self._decoration_counter = snapshot.decoration_counter
+        self._invalidate_compilation()
+        self._retired_root_resolvers = list(snapshot.retired_root_resolvers)
+        if snapshot.root_resolver is not None:
+            # The registrations are those it was compiled from: keep its singletons.
+            self._root_resolver = snapshot.root_resolver
+            self.compile()
+
     def _bind_container_entrypoints(
         self,
         *,
@@ -2994,3 +3007,5 @@ class _ContainerGraphSnapshot:
     decoration_rules_by_provides: dict[Any, list[_DecorationRule]]
     decoration_chain_by_provides: dict[Any, _DecorationChain]
     decoration_counter: int
+    root_resolver: ResolverProtocol | None
+    retired_root_resolvers: tuple[ResolverProtocol, ...]
-- 
2.43.0


From 47e4371576b9161bf197fcc91297c3df62372626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 04/50] fix: open-generic scopes finish their cleanups when one
 raises a BaseException

---
 src/diwire/_internal/open_generics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e7540d8..0c03d81 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1325,7 +1325,7 @@ def _execute_sync_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 _raise_async_cleanup_in_sync_context()
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
@@ -1347,7 +1347,7 @@ async def _execute_async_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 await cleanup_callback(exc_type, exc_value, traceback)
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
-- 
2.43.0


From 305999d618924872504d139ee34ee08373bcf3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 05/50] fix: None can be registered as an instance

---
 src/diwire/_internal/providers.py                  | 6 ++++--
 src/diwire/_internal/resolvers/assembly/planner.py | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index fbf223e..6a5dfa2 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -89,6 +89,8 @@ _ASYNC_RESOLVER_ORIGINS: tuple[type[Any], ...] = (
     AsyncGenerator,
     AbstractAsyncContextManager,
 )
+NO_INSTANCE: Any = object()
+"""Mark provider specs that are not backed by a pre-built instance."""
 
 
 @dataclass(kw_only=True)
@@ -107,8 +109,8 @@ class ProviderSpec:
     provides: UserDependency
     """The dependency type that this provider supplies."""
 
-    instance: UserDependency | None = None
-    """An optional instance of the provided dependency, if applicable."""
+    instance: UserDependency = NO_INSTANCE
+    """An instance of the provided dependency, if applicable (None is a valid instance)."""
     concrete_type: ConcreteTypeProvider[Any] | None = None
     """An optional concrete type of the provided dependency, if applicable."""
     factory: FactoryProvider[Any] | None = None
diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 4830b49..d970bd8 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -22,6 +22,7 @@ from diwire._internal.markers import (
     strip_provider_annotation,
 )
 from diwire._internal.providers import (
+    NO_INSTANCE,
     Lifetime,
     ProviderDependency,
     ProviderSpec,
@@ -651,7 +652,7 @@ class ResolverGenerationPlanner:
         return lock_mode
 
     def _resolve_provider_attribute(self, *, spec: ProviderSpec) -> str:
-        if spec.instance is not None:
+        if spec.instance is not NO_INSTANCE:
             return "instance"
         if spec.concrete_type is not None:
             return "concrete_type"
@@ -669,7 +670,7 @@ class ResolverGenerationPlanner:
         raise DIWireInvalidProviderSpecError(msg)
 
     def _is_cached(self, *, spec: ProviderSpec) -> bool:
-        if spec.instance is not None:
+        if spec.instance is not NO_INSTANCE:
             return True
         return spec.lifetime is not Lifetime.TRANSIENT
 
@@ -681,7 +682,7 @@ class ResolverGenerationPlanner:
     ) -> int | None:
         if not is_cached:
             return None
-        if spec.instance is not None:
+        if spec.instance is not NO_INSTANCE:
             return self._root_scope.level
         if spec.lifetime is Lifetime.SCOPED:
             return spec.scope.level
-- 
2.43.0


From 3aa9f26ae3298fee7964253ce23ae91845854fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 06/50] fix: dependencies after a parameter that is not a
 dependency reach their own parameter

---
 .../_internal/resolvers/assembly/compiler.py  |   8 ++
 .../_internal/resolvers/assembly/planner.py   | 113 +++++++++++++++++-
 2 files changed, 115 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4474e47..056ef94 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1399,6 +1399,8 @@ class ResolversAssemblyCompiler:
             return None
         if workflow.provider_is_inject_wrapper:
             return None
+        if any(plan.kind == "default" for plan in workflow.dependency_plans):
+            return None
 
         method_name = f"resolve_{workflow.slot}"
         class_scope_level = class_plan.scope_level
@@ -2893,6 +2895,9 @@ def _resolve_dependency_value_sync(
     if dependency_plan.kind == "omit":
         return _OMIT_ARGUMENT
 
+    if dependency_plan.kind == "default":
+        return dependency_plan.dependency.parameter.default
+
     if dependency_plan.kind == "literal":
         return _literal_value_for_plan(dependency_plan=dependency_plan)
 
@@ -2952,6 +2957,9 @@ def _resolve_dependency_value_async(
         if dependency_plan.kind == "omit":
             return _OMIT_ARGUMENT
 
+        if dependency_plan.kind == "default":
+            return dependency_plan.dependency.parameter.default
+
         if dependency_plan.kind == "literal":
             return _literal_value_for_plan(dependency_plan=dependency_plan)
 
diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index d970bd8..c4733b9 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -33,7 +33,18 @@ from diwire._internal.type_checks import is_runtime_class
 from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireInvalidProviderSpecError
 
 DispatchKind = Literal["identity", "equality_map"]
-DependencyPlanKind = Literal["provider", "context", "provider_handle", "all", "literal", "omit"]
+DependencyPlanKind = Literal[
+    "provider",
+    "context",
+    "provider_handle",
+    "all",
+    "literal",
+    "omit",
+    "default",
+]
+_POSITIONAL_PARAMETER_KINDS = frozenset(
+    {inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD},
+)
 _DATACLASS_DEFAULT_FACTORY_SENTINEL: Any = getattr(
     dataclasses,
     "_HAS_DEFAULT_FACTORY",
@@ -341,7 +352,16 @@ class ResolverGenerationPlanner:
         dependency_requires_async: list[bool] = []
         sync_arguments: list[str] = []
         async_arguments: list[str] = []
+        unfilled_parameters = self._unfilled_positional_parameters(spec=spec)
         for dependency_index, dependency in enumerate(spec.dependencies):
+            dependency_plans.extend(
+                self._default_plan(
+                    spec=spec,
+                    dependency_index=dependency_index,
+                    parameter=parameter,
+                )
+                for parameter in unfilled_parameters.get(dependency.parameter.name, ())
+            )
             dependency_plan, slot, requires_async, sync_argument, async_argument = (
                 self._plan_dependency(
                     spec=spec,
@@ -567,6 +587,13 @@ class ResolverGenerationPlanner:
         dependency_spec = self._find_registered_dependency_spec(dependency_key)
         if dependency_spec is None and optional:
             if dependency.parameter.default is not inspect.Parameter.empty:
+                if self._precedes_star_dependency(spec=spec, dependency=dependency):
+                    default_plan = self._default_plan(
+                        spec=spec,
+                        dependency_index=dependency_index,
+                        parameter=dependency.parameter,
+                    )
+                    return default_plan, None, False, "", ""
                 omit_plan = ProviderDependencyPlan(
                     kind="omit",
                     dependency=dependency,
@@ -850,13 +877,13 @@ class ResolverGenerationPlanner:
         if not spec.dependencies:
             return True
 
-        provider_callable = self._provider_callable_for_signature(spec=spec)
-        if provider_callable is None:
+        parameters = self._provider_parameters(spec=spec)
+        if parameters is None:
             return False
 
-        parameters = list(inspect.signature(provider_callable).parameters.values())
-        if spec.concrete_type is not None and parameters:
-            parameters = parameters[1:]
+        filled_names = {dependency.parameter.name for dependency in spec.dependencies}
+        for unfilled_parameters in self._unfilled_positional_parameters(spec=spec).values():
+            filled_names.update(parameter.name for parameter in unfilled_parameters)
 
         order_by_name = {parameter.name: index for index, parameter in enumerate(parameters)}
         last_index = -1
@@ -864,9 +891,83 @@ class ResolverGenerationPlanner:
             current_index = order_by_name.get(dependency.parameter.name)
             if current_index is None or current_index < last_index:
                 return False
+            if dependency.parameter.kind in _POSITIONAL_PARAMETER_KINDS and any(
+                parameter.name not in filled_names for parameter in parameters[:current_index]
+            ):
+                return False
             last_index = current_index
         return True
 
+    def _unfilled_positional_parameters(
+        self,
+        *,
+        spec: ProviderSpec,
+    ) -> dict[str, list[inspect.Parameter]]:
+        """Return parameters whose default must be passed before a dependency, by its name.
+
+        Positional-only and ``*args`` dependencies can only be passed by position,
+        so parameters before them that are not dependencies need their defaults.
+        """
+        positional_names = {
+            dependency.parameter.name
+            for dependency in spec.dependencies
+            if dependency.parameter.kind
+            in {inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.VAR_POSITIONAL}
+        }
+        if not positional_names:
+            return {}
+
+        dependency_names = {dependency.parameter.name for dependency in spec.dependencies}
+        by_dependency_name: dict[str, list[inspect.Parameter]] = {}
+        collected: dict[str, list[inspect.Parameter]] = {}
+        pending: list[inspect.Parameter] = []
+        for parameter in self._provider_parameters(spec=spec) or ():
+            if parameter.name not in dependency_names:
+                if parameter.kind in _POSITIONAL_PARAMETER_KINDS:
+                    pending.append(parameter)
+                continue
+            if pending:
+                collected[parameter.name] = pending
+                pending = []
+            if parameter.name in positional_names:
+                by_dependency_name.update(collected)
+                collected = {}
+        return by_dependency_name
+
+    def _precedes_star_dependency(
+        self,
+        *,
+        spec: ProviderSpec,
+        dependency: ProviderDependency,
+    ) -> bool:
+        return dependency.parameter.kind in _POSITIONAL_PARAMETER_KINDS and any(
+            candidate.parameter.kind is inspect.Parameter.VAR_POSITIONAL
+            for candidate in spec.dependencies
+        )
+
+    def _default_plan(
+        self,
+        *,
+        spec: ProviderSpec,
+        dependency_index: int,
+        parameter: inspect.Parameter,
+    ) -> ProviderDependencyPlan:
+        return ProviderDependencyPlan(
+            kind="default",
+            dependency=ProviderDependency(provides=spec.provides, parameter=parameter),
+            dependency_index=dependency_index,
+        )
+
+    def _provider_parameters(self, *, spec: ProviderSpec) -> list[inspect.Parameter] | None:
+        provider_callable = self._provider_callable_for_signature(spec=spec)
+        if provider_callable is None:
+            return None
+
+        parameters = list(inspect.signature(provider_callable).parameters.values())
+        if spec.concrete_type is not None and parameters:
+            parameters = parameters[1:]
+        return parameters
+
     def _provider_callable_for_signature(self, *, spec: ProviderSpec) -> Any | None:
         if spec.concrete_type is not None:
             return spec.concrete_type.__init__
-- 
2.43.0


From 48002d15fbed61fbd7f62e7d3eb2b4d65fa21f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 07/50] fix: optional context values and lazy handles are
 absent when nothing supplies them

---
 .../_internal/resolvers/assembly/compiler.py  | 30 +++++++-
 .../_internal/resolvers/assembly/planner.py   | 72 +++++++++++++------
 2 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 056ef94..eabf914 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1399,7 +1399,10 @@ class ResolversAssemblyCompiler:
             return None
         if workflow.provider_is_inject_wrapper:
             return None
-        if any(plan.kind == "default" for plan in workflow.dependency_plans):
+        if any(
+            plan.kind == "default" or (plan.kind == "context" and plan.optional)
+            for plan in workflow.dependency_plans
+        ):
             return None
 
         method_name = f"resolve_{workflow.slot}"
@@ -2917,7 +2920,12 @@ def _resolve_dependency_value_sync(
             msg = "Missing context key global name for context dependency plan."
             raise ValueError(msg)
         context_key = runtime.context_key_by_name[context_key_name]
-        return resolver._resolve_from_context(context_key)
+        try:
+            return resolver._resolve_from_context(context_key)
+        except DIWireDependencyNotRegisteredError:
+            if not dependency_plan.optional:
+                raise
+            return _absent_optional_value(dependency=dependency_plan.dependency)
 
     if dependency_plan.kind == "all":
         if not dependency_plan.all_slots:
@@ -2979,7 +2987,12 @@ def _resolve_dependency_value_async(
                 msg = "Missing context key global name for context dependency plan."
                 raise ValueError(msg)
             context_key = runtime.context_key_by_name[context_key_name]
-            return resolver._resolve_from_context(context_key)
+            try:
+                return resolver._resolve_from_context(context_key)
+            except DIWireDependencyNotRegisteredError:
+                if not dependency_plan.optional:
+                    raise
+                return _absent_optional_value(dependency=dependency_plan.dependency)
 
         if dependency_plan.kind == "all":
             if not dependency_plan.all_slots:
@@ -3144,6 +3157,17 @@ def _call_provider(*, callable_obj: Any, argument_parts: list[_ArgumentPart]) ->
     return callable_obj(*positional_arguments, **keyword_arguments)
 
 
+def _absent_optional_value(*, dependency: ProviderDependency) -> Any:
+    parameter = dependency.parameter
+    if parameter.default is not inspect.Parameter.empty:
+        return parameter.default
+    if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+        return ()
+    if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+        return {}
+    return None
+
+
 def _literal_value_for_plan(*, dependency_plan: ProviderDependencyPlan) -> Any:
     literal_expression = dependency_plan.literal_expression
     if literal_expression == "None":
diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index c4733b9..dbac7de 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -174,6 +174,7 @@ class ProviderDependencyPlan:
     provider_is_async: bool = False
     all_slots: tuple[int, ...] = ()
     literal_expression: str | None = None
+    optional: bool = False
 
 
 @dataclass(frozen=True, slots=True)
@@ -435,8 +436,18 @@ class ResolverGenerationPlanner:
                 provider_slot=spec.slot,
                 dependency_index=dependency_index,
                 dependency=dependency,
+                optional=optional,
             )
         if is_provider_annotation(dependency_key):
+            if optional and (
+                self._find_registered_dependency_spec(strip_provider_annotation(dependency_key))
+                is None
+            ):
+                return self._plan_absent_optional_dependency(
+                    spec=spec,
+                    dependency_index=dependency_index,
+                    dependency=dependency,
+                )
             return self._plan_provider_handle_dependency(
                 spec=spec,
                 dependency_index=dependency_index,
@@ -463,6 +474,7 @@ class ResolverGenerationPlanner:
         provider_slot: int,
         dependency_index: int,
         dependency: ProviderDependency,
+        optional: bool,
     ) -> tuple[ProviderDependencyPlan, int | None, bool, str, str]:
         ctx_key_global_name = f"_ctx_{provider_slot}_{dependency_index}_key"
         plan = ProviderDependencyPlan(
@@ -472,6 +484,7 @@ class ResolverGenerationPlanner:
             dependency_slot=None,
             dependency_requires_async=False,
             ctx_key_global_name=ctx_key_global_name,
+            optional=optional,
         )
         expression = f"self._resolve_from_context({ctx_key_global_name})"
         argument = self._format_dependency_argument_for_expression(
@@ -586,32 +599,11 @@ class ResolverGenerationPlanner:
     ) -> tuple[ProviderDependencyPlan, int | None, bool, str, str]:
         dependency_spec = self._find_registered_dependency_spec(dependency_key)
         if dependency_spec is None and optional:
-            if dependency.parameter.default is not inspect.Parameter.empty:
-                if self._precedes_star_dependency(spec=spec, dependency=dependency):
-                    default_plan = self._default_plan(
-                        spec=spec,
-                        dependency_index=dependency_index,
-                        parameter=dependency.parameter,
-                    )
-                    return default_plan, None, False, "", ""
-                omit_plan = ProviderDependencyPlan(
-                    kind="omit",
-                    dependency=dependency,
-                    dependency_index=dependency_index,
-                )
-                return omit_plan, None, False, "", ""
-            literal_expression = self._missing_optional_literal_expression(dependency=dependency)
-            literal_plan = ProviderDependencyPlan(
-                kind="literal",
-                dependency=dependency,
+            return self._plan_absent_optional_dependency(
+                spec=spec,
                 dependency_index=dependency_index,
-                literal_expression=literal_expression,
-            )
-            argument = self._format_dependency_argument_for_expression(
                 dependency=dependency,
-                expression=literal_expression,
             )
-            return literal_plan, None, False, argument, argument
         if dependency_spec is None and self._is_dataclass_default_factory_parameter(
             dependency.parameter,
         ):
@@ -648,6 +640,40 @@ class ResolverGenerationPlanner:
         )
         return plan, dependency_spec.slot, requires_async, sync_argument, async_argument
 
+    def _plan_absent_optional_dependency(
+        self,
+        *,
+        spec: ProviderSpec,
+        dependency_index: int,
+        dependency: ProviderDependency,
+    ) -> tuple[ProviderDependencyPlan, int | None, bool, str, str]:
+        if dependency.parameter.default is not inspect.Parameter.empty:
+            if self._precedes_star_dependency(spec=spec, dependency=dependency):
+                default_plan = self._default_plan(
+                    spec=spec,
+                    dependency_index=dependency_index,
+                    parameter=dependency.parameter,
+                )
+                return default_plan, None, False, "", ""
+            omit_plan = ProviderDependencyPlan(
+                kind="omit",
+                dependency=dependency,
+                dependency_index=dependency_index,
+            )
+            return omit_plan, None, False, "", ""
+        literal_expression = self._missing_optional_literal_expression(dependency=dependency)
+        literal_plan = ProviderDependencyPlan(
+            kind="literal",
+            dependency=dependency,
+            dependency_index=dependency_index,
+            literal_expression=literal_expression,
+        )
+        argument = self._format_dependency_argument_for_expression(
+            dependency=dependency,
+            expression=literal_expression,
+        )
+        return literal_plan, None, False, argument, argument
+
     def _split_maybe_dependency(self, dependency_provides: Any) -> tuple[bool, Any]:
         if not is_maybe_annotation(dependency_provides):
             return False, dependency_provides
-- 
2.43.0


From 656ea47755b8758ba00d39be1d8fdf4361fbe94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 08/50] fix: constructing a scoped object may construct the
 same key in another scope

---
 src/diwire/_internal/resolvers/assembly/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index eabf914..614d059 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -9,7 +9,7 @@ import logging
 import threading
 import types
 from collections.abc import Awaitable, Callable, Mapping, Sequence
-from contextlib import asynccontextmanager, contextmanager
+from contextlib import AbstractContextManager, asynccontextmanager, contextmanager
 from dataclasses import dataclass
 from types import CodeType, TracebackType
 from typing import Any, Final, Literal, cast
@@ -83,7 +83,7 @@ class _ResolverRuntime:
     dep_type_by_slot: dict[int, Any]
     provider_by_slot: dict[int, Any]
     context_key_by_name: dict[str, Any]
-    thread_lock_by_slot: dict[int, threading.Lock]
+    thread_lock_by_slot: dict[int, AbstractContextManager[Any]]
     async_lock_by_slot: dict[int, asyncio.Lock]
     cache_slots_by_owner_level: dict[int, tuple[int, ...]]
     next_scope_options_by_level: dict[
@@ -199,7 +199,7 @@ class ResolversAssemblyCompiler:
         all_slots_by_key = {key: tuple(slots) for key, slots in all_slots_by_key_mut.items()}
 
         thread_lock_by_slot = {
-            workflow.slot: threading.Lock()
+            workflow.slot: threading.RLock()
             for workflow in plan.workflows
             if workflow.uses_thread_lock
         }
-- 
2.43.0


From 5bbe7a6ba948c4864b3ea082422361f2f65fbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 09/50] fix: async locking of resolvers works from a later
 event loop

---
 src/diwire/_internal/event_loop_lock.py       | 39 +++++++++++++++++++
 src/diwire/_internal/open_generics.py         |  8 ++--
 .../_internal/resolvers/assembly/compiler.py  | 13 +++++--
 3 files changed, 52 insertions(+), 8 deletions(-)
 create mode 100644 src/diwire/_internal/event_loop_lock.py

diff --git a/src/diwire/_internal/event_loop_lock.py b/src/diwire/_internal/event_loop_lock.py
new file mode 100644
index 0000000..d2dd341
--- /dev/null
+++ b/src/diwire/_internal/event_loop_lock.py
@@ -0,0 +1,39 @@
+from __future__ import annotations
+
+import asyncio
+from types import TracebackType
+from weakref import WeakKeyDictionary
+
+
+class EventLoopLock:
+    """Serialize tasks of one event loop, and stay usable from later event loops.
+
+    ``asyncio.Lock`` binds itself to the loop of its first waiter, while resolvers
+    may outlive that loop.
+    """
+
+    __slots__ = ("_lock_by_loop", "_lock_without_loop")
+
+    def __init__(self) -> None:
+        self._lock_by_loop: WeakKeyDictionary[asyncio.AbstractEventLoop, asyncio.Lock] = (
+            WeakKeyDictionary()
+        )
+        self._lock_without_loop = asyncio.Lock()
+
+    async def __aenter__(self) -> None:
+        await self._current_lock().acquire()
+
+    async def __aexit__(
+        self,
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        self._current_lock().release()
+
+    def _current_lock(self) -> asyncio.Lock:
+        try:
+            loop = asyncio.get_running_loop()
+        except RuntimeError:
+            return self._lock_without_loop
+        return self._lock_by_loop.setdefault(loop, asyncio.Lock())
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 0c03d81..29d7f92 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import asyncio
 import inspect
 import threading
 from collections.abc import Iterable, Mapping
@@ -9,6 +8,7 @@ from dataclasses import dataclass
 from types import TracebackType
 from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
 
+from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
@@ -349,7 +349,7 @@ class _OpenGenericResolver:  # pragma: no cover
         self._parent_wrapper = parent_wrapper
         self._cache: dict[Any, Any] = {}
         self._thread_locks: dict[Any, threading.Lock] = {}
-        self._async_locks: dict[Any, asyncio.Lock] = {}
+        self._async_locks: dict[Any, EventLoopLock] = {}
         self._cleanup_callbacks: list[tuple[int, Any]] = []
         self._cleanup_enabled = bool(
             getattr(base_resolver, "_cleanup_enabled", True),
@@ -710,8 +710,8 @@ class _OpenGenericResolver:  # pragma: no cover
     def get_thread_lock(self, dependency: Any) -> threading.Lock:
         return self._thread_locks.setdefault(dependency, threading.Lock())
 
-    def get_async_lock(self, dependency: Any) -> asyncio.Lock:
-        return self._async_locks.setdefault(dependency, asyncio.Lock())
+    def get_async_lock(self, dependency: Any) -> EventLoopLock:
+        return self._async_locks.setdefault(dependency, EventLoopLock())
 
     def build_open_value_sync(self, *, match: _OpenGenericMatch) -> Any:
         return self._build_open_value_sync(match=match)
diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 614d059..fb27d86 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -2,19 +2,24 @@ from __future__ import annotations
 
 # ruff: noqa: C901,FBT001,PERF203,PERF401,PLR0911,PLR0912,PLR0913,PLW0108,SLF001,TRY301
 import ast
-import asyncio
 import inspect
 import keyword
 import logging
 import threading
 import types
 from collections.abc import Awaitable, Callable, Mapping, Sequence
-from contextlib import AbstractContextManager, asynccontextmanager, contextmanager
+from contextlib import (
+    AbstractAsyncContextManager,
+    AbstractContextManager,
+    asynccontextmanager,
+    contextmanager,
+)
 from dataclasses import dataclass
 from types import CodeType, TracebackType
 from typing import Any, Final, Literal, cast
 
 from diwire._internal.injection import INJECT_CONTEXT_KWARG, INJECT_RESOLVER_KWARG
+from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
     component_base_key,
@@ -84,7 +89,7 @@ class _ResolverRuntime:
     provider_by_slot: dict[int, Any]
     context_key_by_name: dict[str, Any]
     thread_lock_by_slot: dict[int, AbstractContextManager[Any]]
-    async_lock_by_slot: dict[int, asyncio.Lock]
+    async_lock_by_slot: dict[int, AbstractAsyncContextManager[Any]]
     cache_slots_by_owner_level: dict[int, tuple[int, ...]]
     next_scope_options_by_level: dict[
         int, tuple[ScopePlan | None, ScopePlan | None, tuple[ScopePlan, ...]]
@@ -204,7 +209,7 @@ class ResolversAssemblyCompiler:
             if workflow.uses_thread_lock
         }
         async_lock_by_slot = {
-            workflow.slot: asyncio.Lock() for workflow in plan.workflows if workflow.uses_async_lock
+            workflow.slot: EventLoopLock() for workflow in plan.workflows if workflow.uses_async_lock
         }
 
         cache_slots_by_owner_level_mut: dict[int, list[int]] = {}
-- 
2.43.0


From f6ad4318f940d495c35c53af139f119551f12376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 10/50] fix: a pooled scope is claimed before it is reset

---
 src/diwire/_internal/resolvers/assembly/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index fb27d86..8a48c43 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -820,6 +820,7 @@ class ResolversAssemblyCompiler:
                 "if context is None and self._context is None and self._parent_context_resolver is None:",
                 f"    _pooled = self._scope_resolver_{target_level}",
                 "    if not _pooled._active:",
+                "        _pooled._active = True",
                 "        _pooled._context = None",
                 "        _pooled._parent_context_resolver = self",
                 "        _pooled._owned_scope_resolvers = ()",
@@ -828,7 +829,6 @@ class ResolversAssemblyCompiler:
                 pooled_lines.append(f"        _pooled._cache_{cache_slot} = _MISSING_CACHE")
             pooled_lines.extend(
                 [
-                    "        _pooled._active = True",
                     "        return _pooled",
                 ],
             )
-- 
2.43.0


From a1e7a0542d1dbac1d9b515fc772931bbdecf0aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 11/50] fix: a dependency of a skippable scope that is not open
 is a scope mismatch

---
 src/diwire/_internal/resolvers/assembly/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 8a48c43..224c81c 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1654,7 +1654,11 @@ class ResolversAssemblyCompiler:
                 expression = f"self._root_resolver.resolve_{dependency_slot}()"
             else:
                 owner_scope = runtime.scopes_by_level[dependency_workflow.scope_level]
-                expression = f"self.{owner_scope.resolver_attr_name}.resolve_{dependency_slot}()"
+                # A skippable scope may not be open; the slot method reports that.
+                if not owner_scope.skippable:
+                    expression = (
+                        f"self.{owner_scope.resolver_attr_name}.resolve_{dependency_slot}()"
+                    )
 
         if (
             dependency_workflow.scope_level == class_plan.scope_level
-- 
2.43.0


From 6943374eb80e6edcd298b9add7d1c042359f3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 12/50] fix: threads resolving first at the same time share one
 compiled graph

---
 src/diwire/_internal/container.py | 46 +++++++++++++++++--------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index c6a79a6..387316c 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import functools
 import inspect
 import logging
+import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
 from dataclasses import dataclass
@@ -185,6 +186,7 @@ class Container:
         self._resolvers_manager = ResolversManager()
         self._injected_callable_inspector = InjectedCallableInspector()
 
+        self._compilation_lock = threading.RLock()
         self._root_resolver: ResolverProtocol | None = None
         # Former root resolvers, oldest first: resources they still hold are
         # released when the container is closed.
@@ -2442,28 +2444,30 @@ class Container:
                 service = container.resolve(Service)
 
         """
-        if self._root_resolver is None:
-            root_resolver = self._resolvers_manager.build_root_resolver(
-                root_scope=self._root_scope,
-                registrations=self._providers_registrations,
-            )
-            if self._open_generic_registry.has_specs():
-                has_async_specs = any(
-                    spec.is_async for spec in self._providers_registrations.values()
-                ) or any(spec.is_async for spec in self._open_generic_registry.values())
-                root_resolver = cast(
-                    "ResolverProtocol",
-                    OpenGenericResolver(
-                        base_resolver=root_resolver,
-                        registry=self._open_generic_registry,
-                        root_scope=self._root_scope,
-                        has_async_specs=has_async_specs,
-                        scope_level=self._root_scope.level,
-                    ),
+        # Threads that resolve first at the same time share one compiled graph.
+        with self._compilation_lock:
+            if self._root_resolver is None:
+                root_resolver = self._resolvers_manager.build_root_resolver(
+                    root_scope=self._root_scope,
+                    registrations=self._providers_registrations,
                 )
-            if self._use_resolver_context:
-                root_resolver = self._resolver_context._wrap_resolver(root_resolver)  # noqa: SLF001
-            self._root_resolver = root_resolver
+                if self._open_generic_registry.has_specs():
+                    has_async_specs = any(
+                        spec.is_async for spec in self._providers_registrations.values()
+                    ) or any(spec.is_async for spec in self._open_generic_registry.values())
+                    root_resolver = cast(
+                        "ResolverProtocol",
+                        OpenGenericResolver(
+                            base_resolver=root_resolver,
+                            registry=self._open_generic_registry,
+                            root_scope=self._root_scope,
+                            has_async_specs=has_async_specs,
+                            scope_level=self._root_scope.level,
+                        ),
+                    )
+                if self._use_resolver_context:
+                    root_resolver = self._resolver_context._wrap_resolver(root_resolver)  # noqa: SLF001
+                self._root_resolver = root_resolver
         if self._missing_policy is MissingPolicy.ERROR and not self._use_resolver_context:
             self._bind_container_entrypoints(target=self._root_resolver)
 
-- 
2.43.0


From c57da28990d838419ce4b8e94b46b2da62027d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 13/50] fix: decorators of an instance are locked like other
 cached providers

---
 src/diwire/_internal/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 387316c..d947e8f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -51,6 +51,7 @@ from diwire._internal.open_generics import (
 )
 from diwire._internal.policies import DependencyRegistrationPolicy, MissingPolicy
 from diwire._internal.providers import (
+    NO_INSTANCE,
     ContextManagerProvider,
     FactoryProvider,
     GeneratorProvider,
@@ -1272,10 +1273,12 @@ class Container:
         if provider_spec.lifetime is None:
             msg = f"Decoration base binding for {provides!r} has no lifetime."
             raise DIWireInvalidRegistrationError(msg)
+        is_instance = provider_spec.instance is not NO_INSTANCE
         return _DecorationBaseMetadata(
             lifetime=provider_spec.lifetime,
             scope=provider_spec.scope,
-            lock_mode=provider_spec.lock_mode,
+            # An instance needs no lock, but the decorators around it are constructed.
+            lock_mode=self._lock_mode if is_instance else provider_spec.lock_mode,
             is_open_generic=False,
         )
 
-- 
2.43.0


From 4045f4c415f5148c25fd9a6dc29c213b3b13d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 14/50] fix: a task constructing an object may construct the
 same key in another scope

---
 src/diwire/_internal/event_loop_lock.py | 47 +++++++++++++++++++++----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/diwire/_internal/event_loop_lock.py b/src/diwire/_internal/event_loop_lock.py
index d2dd341..0ac5724 100644
--- a/src/diwire/_internal/event_loop_lock.py
+++ b/src/diwire/_internal/event_loop_lock.py
@@ -2,26 +2,59 @@ from __future__ import annotations
 
 import asyncio
 from types import TracebackType
+from typing import Any
 from weakref import WeakKeyDictionary
 
 
+class _TaskLock:
+    """An ``asyncio.Lock`` that its owner task may enter again."""
+
+    __slots__ = ("_depth", "_lock", "_owner")
+
+    def __init__(self) -> None:
+        self._lock = asyncio.Lock()
+        self._owner: asyncio.Task[Any] | None = None
+        self._depth = 0
+
+    async def enter(self) -> None:
+        task = _current_task()
+        if task is None or self._owner is not task:
+            await self._lock.acquire()
+            self._owner = task
+        self._depth += 1
+
+    def leave(self) -> None:
+        self._depth -= 1
+        if self._depth == 0:
+            self._owner = None
+            self._lock.release()
+
+
+def _current_task() -> asyncio.Task[Any] | None:
+    try:
+        return asyncio.current_task()
+    except RuntimeError:
+        return None
+
+
 class EventLoopLock:
     """Serialize tasks of one event loop, and stay usable from later event loops.
 
     ``asyncio.Lock`` binds itself to the loop of its first waiter, while resolvers
-    may outlive that loop.
+    may outlive that loop. The task that holds the lock may enter it again: while
+    constructing an object it may need the same key from another scope.
     """
 
     __slots__ = ("_lock_by_loop", "_lock_without_loop")
 
     def __init__(self) -> None:
-        self._lock_by_loop: WeakKeyDictionary[asyncio.AbstractEventLoop, asyncio.Lock] = (
+        self._lock_by_loop: WeakKeyDictionary[asyncio.AbstractEventLoop, _TaskLock] = (
             WeakKeyDictionary()
         )
-        self._lock_without_loop = asyncio.Lock()
+        self._lock_without_loop = _TaskLock()
 
     async def __aenter__(self) -> None:
-        await self._current_lock().acquire()
+        await self._current_lock().enter()
 
     async def __aexit__(
         self,
@@ -29,11 +62,11 @@ class EventLoopLock:
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        self._current_lock().release()
+        self._current_lock().leave()
 
-    def _current_lock(self) -> asyncio.Lock:
+    def _current_lock(self) -> _TaskLock:
         try:
             loop = asyncio.get_running_loop()
         except RuntimeError:
             return self._lock_without_loop
-        return self._lock_by_loop.setdefault(loop, asyncio.Lock())
+        return self._lock_by_loop.setdefault(loop, _TaskLock())
-- 
2.43.0


From ddb2b57169f5cf9f5f2d4028b8b4a049495502b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 15/50] fix: parameter annotations of a provider are those of
 its signature

Annotations of class attributes and of an instance's __call__ took precedence
over those of __init__, and callable objects used annotations of their class.
---
 src/diwire/_internal/providers.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 6a5dfa2..feff2f4 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -564,7 +564,10 @@ class ProviderDependenciesExtractor:
         annotation_error: Exception | None = None
 
         try:
-            annotations = get_type_hints(provider, include_extras=True)
+            annotations = get_type_hints(
+                self._annotated_callable(provider),
+                include_extras=True,
+            )
         except (AttributeError, NameError, TypeError) as error:
             annotation_error = error
 
@@ -577,6 +580,13 @@ class ProviderDependenciesExtractor:
 
         return annotations, annotation_error
 
+    def _annotated_callable(self, provider: Callable[..., Any]) -> Callable[..., Any]:
+        """Return the callable whose annotations describe the parameters of a provider."""
+        if inspect.isclass(provider) or hasattr(provider, "__wrapped__"):
+            return provider
+        call_method = type(provider).__call__
+        return call_method if inspect.isfunction(call_method) else provider
+
     def _merge_concrete_type_callable_hints(
         self,
         *,
@@ -584,21 +594,30 @@ class ProviderDependenciesExtractor:
         annotations: dict[str, Any],
         annotation_error: Exception | None,
     ) -> tuple[dict[str, Any], Exception | None]:
-        merged_annotations = dict(annotations)
+        merged_annotations: dict[str, Any] = {}
         merged_error = annotation_error
 
-        for callable_member_name in ("__call__", "__new__", "__init__"):
-            callable_member = getattr(concrete_type, callable_member_name)
+        # In the order in which they determine the signature of the class; annotations
+        # of its attributes only complete them.
+        for callable_member in (
+            type(concrete_type).__call__,
+            concrete_type.__new__,
+            concrete_type.__init__,
+        ):
             try:
                 member_annotations = get_type_hints(callable_member, include_extras=True)
             except (AttributeError, NameError, TypeError) as error:
                 if merged_error is None:
                     merged_error = error
-                continue
+                member_annotations = {
+                    name: annotation
+                    for name, annotation in getattr(callable_member, "__annotations__", {}).items()
+                    if not isinstance(annotation, str)
+                }
             for parameter_name, parameter_annotation in member_annotations.items():
                 merged_annotations.setdefault(parameter_name, parameter_annotation)
 
-        return merged_annotations, merged_error
+        return {**annotations, **merged_annotations}, merged_error
 
     def _is_required_parameter(self, parameter: Parameter) -> bool:
         return (
-- 
2.43.0


From aabdce13c398fd249baa97b75d16fba13164db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 16/50] fix: constructor parameters are those of the class
 signature

A class constructed through __new__ or a metaclass was planned by its __init__.
---
 src/diwire/_internal/resolvers/assembly/planner.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index dbac7de..2431055 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -989,14 +989,11 @@ class ResolverGenerationPlanner:
         if provider_callable is None:
             return None
 
-        parameters = list(inspect.signature(provider_callable).parameters.values())
-        if spec.concrete_type is not None and parameters:
-            parameters = parameters[1:]
-        return parameters
+        return list(inspect.signature(provider_callable).parameters.values())
 
     def _provider_callable_for_signature(self, *, spec: ProviderSpec) -> Any | None:
         if spec.concrete_type is not None:
-            return spec.concrete_type.__init__
+            return spec.concrete_type
         if spec.factory is not None:
             return spec.factory
         if spec.generator is not None:
-- 
2.43.0


From 059644a1966ad78be9de9e8317e25a52043f4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 17/50] fix: injected type arguments of closed generics do not
 shift positional dependencies

---
 src/diwire/_internal/container.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index d947e8f..3f3f570 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1664,15 +1664,25 @@ class Container:
     ) -> Callable[..., Any]:
         constructor_signature = inspect.signature(concrete_type)
         factory_injected_arguments = dict(injected_arguments)
+        factory_signature = constructor_signature.replace(
+            parameters=[
+                parameter
+                for parameter in constructor_signature.parameters.values()
+                if parameter.name not in factory_injected_arguments
+            ],
+        )
 
         def _factory(*args: Any, **kwargs: Any) -> Any:
-            bound_arguments = constructor_signature.bind_partial(*args, **kwargs)
-            for argument_name, argument_value in factory_injected_arguments.items():
-                if argument_name in bound_arguments.arguments:
-                    continue
-                bound_arguments.arguments[argument_name] = argument_value
+            # Injected arguments are no parameters of the factory, so positional
+            # arguments must not be bound to them.
+            factory_arguments = factory_signature.bind_partial(*args, **kwargs)
+            factory_arguments.apply_defaults()
+            bound_arguments = constructor_signature.bind_partial()
+            bound_arguments.arguments.update(factory_arguments.arguments)
+            bound_arguments.arguments.update(factory_injected_arguments)
             return concrete_type(*bound_arguments.args, **bound_arguments.kwargs)
 
+        cast("Any", _factory).__signature__ = factory_signature
         return _factory
 
     def _resolve_factory_registration_dependencies(
-- 
2.43.0


From da5018e948ba5431422387c02155849025959fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 18/50] fix: diwire_context is refused when the target scope is
 already open

Entering the open scope returned the same resolver, which counted as a newly
opened scope, so the context was silently dropped.
---
 src/diwire/_internal/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 3f3f570..34a7d2f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2407,9 +2407,10 @@ class Container:
             return base_resolver, False
         try:
             if context is None:
-                return base_resolver.enter_scope(target_scope), True
+                scoped_resolver = base_resolver.enter_scope(target_scope)
+                return scoped_resolver, scoped_resolver is not base_resolver
             try:
-                return base_resolver.enter_scope(target_scope, context=context), True
+                scoped_resolver = base_resolver.enter_scope(target_scope, context=context)
             except TypeError as error:
                 msg = (
                     "Resolver does not support context-aware scope entry. "
@@ -2417,6 +2418,8 @@ class Container:
                     f"'{INJECT_CONTEXT_KWARG}'."
                 )
                 raise DIWireInvalidRegistrationError(msg) from error
+            # The scope may be open already; then the context is not used.
+            return scoped_resolver, scoped_resolver is not base_resolver
         except DIWireScopeMismatchError as error:
             if self._is_already_deep_enough_scope_error(error):
                 return base_resolver, False
-- 
2.43.0


From 2146cf2e6b60bbc8575d6e7d7c88d90100a1422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 19/50] fix: injected functions can be called under the deepest
 scope

Entering any target from the deepest scope raises a different scope mismatch
message, which was not recognized as already being deep enough.
---
 src/diwire/_internal/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 34a7d2f..96d2c18 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2428,7 +2428,10 @@ class Container:
     @staticmethod
     def _is_already_deep_enough_scope_error(error: DIWireScopeMismatchError) -> bool:
         message = str(error)
-        return message.startswith("Cannot enter scope level ") and " from level " in message
+        return (
+            message.startswith(("Cannot enter scope level ", "Cannot enter deeper scope "))
+            and " from level " in message
+        )
 
     def _callable_name(self, callable_obj: Callable[..., Any]) -> str:
         return getattr(callable_obj, "__qualname__", repr(callable_obj))
-- 
2.43.0


From 7495da1312edac777c11b2390cb584aeb1b23fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 20/50] fix: absent optional context values leave the default
 of an injected function's parameter

---
 src/diwire/_internal/container.py | 42 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 96d2c18..9d1a7f3 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2204,9 +2204,9 @@ class Container:
             dependency = injected_parameter.dependency
             if is_maybe_annotation(dependency):
                 inner_dependency = strip_maybe_annotation(dependency)
-                if is_provider_annotation(inner_dependency) or is_from_context_annotation(
-                    inner_dependency,
-                ):
+                if is_from_context_annotation(inner_dependency):
+                    continue
+                if is_provider_annotation(inner_dependency):
                     bound_arguments.arguments[injected_parameter.name] = resolver.resolve(
                         dependency,
                     )
@@ -2227,9 +2227,18 @@ class Container:
         for context_parameter in context_parameters:
             if context_parameter.name in bound_arguments.arguments:
                 continue
-            bound_arguments.arguments[context_parameter.name] = resolver.resolve(
-                context_parameter.dependency,
-            )
+            dependency = context_parameter.dependency
+            if is_maybe_annotation(dependency):
+                with suppress(DIWireDependencyNotRegisteredError):
+                    bound_arguments.arguments[context_parameter.name] = resolver.resolve(
+                        strip_maybe_annotation(dependency),
+                    )
+                    continue
+                parameter = signature.parameters[context_parameter.name]
+                if parameter.default is inspect.Parameter.empty:
+                    bound_arguments.arguments[context_parameter.name] = None
+                continue
+            bound_arguments.arguments[context_parameter.name] = resolver.resolve(dependency)
         return bound_arguments
 
     async def _resolve_async_injected_arguments(
@@ -2249,9 +2258,9 @@ class Container:
             dependency = injected_parameter.dependency
             if is_maybe_annotation(dependency):
                 inner_dependency = strip_maybe_annotation(dependency)
-                if is_provider_annotation(inner_dependency) or is_from_context_annotation(
-                    inner_dependency,
-                ):
+                if is_from_context_annotation(inner_dependency):
+                    continue
+                if is_provider_annotation(inner_dependency):
                     bound_arguments.arguments[injected_parameter.name] = await resolver.aresolve(
                         dependency,
                     )
@@ -2274,9 +2283,18 @@ class Container:
         for context_parameter in context_parameters:
             if context_parameter.name in bound_arguments.arguments:
                 continue
-            bound_arguments.arguments[context_parameter.name] = await resolver.aresolve(
-                context_parameter.dependency,
-            )
+            dependency = context_parameter.dependency
+            if is_maybe_annotation(dependency):
+                with suppress(DIWireDependencyNotRegisteredError):
+                    bound_arguments.arguments[context_parameter.name] = await resolver.aresolve(
+                        strip_maybe_annotation(dependency),
+                    )
+                    continue
+                parameter = signature.parameters[context_parameter.name]
+                if parameter.default is inspect.Parameter.empty:
+                    bound_arguments.arguments[context_parameter.name] = None
+                continue
+            bound_arguments.arguments[context_parameter.name] = await resolver.aresolve(dependency)
         return bound_arguments
 
     def _is_registered_in_resolver(
-- 
2.43.0


From b17d77a8a44e1deee67689e4064a04f5970d368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 21/50] fix: injected positional-only parameters may follow
 omitted defaults

---
 src/diwire/_internal/container.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 9d1a7f3..84d638f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2239,6 +2239,7 @@ class Container:
                     bound_arguments.arguments[context_parameter.name] = None
                 continue
             bound_arguments.arguments[context_parameter.name] = resolver.resolve(dependency)
+        self._bind_positional_only_defaults(bound_arguments=bound_arguments)
         return bound_arguments
 
     async def _resolve_async_injected_arguments(
@@ -2295,8 +2296,18 @@ class Container:
                     bound_arguments.arguments[context_parameter.name] = None
                 continue
             bound_arguments.arguments[context_parameter.name] = await resolver.aresolve(dependency)
+        self._bind_positional_only_defaults(bound_arguments=bound_arguments)
         return bound_arguments
 
+    @staticmethod
+    def _bind_positional_only_defaults(*, bound_arguments: inspect.BoundArguments) -> None:
+        """Bind omitted positional-only defaults, which later arguments cannot skip."""
+        for parameter in bound_arguments.signature.parameters.values():
+            if parameter.kind is not inspect.Parameter.POSITIONAL_ONLY:
+                return
+            if parameter.default is not inspect.Parameter.empty:
+                bound_arguments.arguments.setdefault(parameter.name, parameter.default)
+
     def _is_registered_in_resolver(
         self,
         *,
-- 
2.43.0


From 403f69313f587dbc32cbc9c280f6161260149e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 22/50] fix: classes autoregistered under a bound resolver stay
 resolvable there

The bound resolver predates the registration, so only the request that caused
the registration succeeded.
---
 src/diwire/_internal/container.py | 44 ++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 84d638f..500d424 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2335,6 +2335,18 @@ class Container:
             return False
         return self._open_generic_registry.find_best_match(normalized_dependency) is not None
 
+    def _is_registered_after_resolver(
+        self,
+        *,
+        resolver: ResolverProtocol,
+        dependency: Any,
+    ) -> bool:
+        """Whether a context-bound resolver predates the registration of a dependency."""
+        dependency_key = self._normalize_dependency_identity_key(dependency)
+        if self._providers_registrations.find_by_type(dependency_key) is None:
+            return False
+        return not self._is_registered_in_resolver(resolver=resolver, dependency=dependency_key)
+
     def _resolve_inject_resolver(self, kwargs: dict[str, Any]) -> ResolverProtocol:
         if INJECT_RESOLVER_KWARG in kwargs:
             return cast("ResolverProtocol", kwargs.pop(INJECT_RESOLVER_KWARG))
@@ -2710,7 +2722,13 @@ class Container:
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision != graph_revision_before:
+            if (
+                self._graph_revision != graph_revision_before
+                or self._is_registered_after_resolver(
+                    resolver=resolver,
+                    dependency=provider_inner_dependency,
+                )
+            ):
                 resolver = self.compile()
             return resolver.resolve(dependency)
 
@@ -2722,7 +2740,13 @@ class Container:
                 dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision == graph_revision_before:
+            if (
+                self._graph_revision == graph_revision_before
+                and not self._is_registered_after_resolver(
+                    resolver=resolver,
+                    dependency=dependency,
+                )
+            ):
                 raise
             resolver = self.compile()
             return resolver.resolve(dependency)
@@ -2800,7 +2824,13 @@ class Container:
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision != graph_revision_before:
+            if (
+                self._graph_revision != graph_revision_before
+                or self._is_registered_after_resolver(
+                    resolver=resolver,
+                    dependency=provider_inner_dependency,
+                )
+            ):
                 resolver = self.compile()
             return await resolver.aresolve(dependency)
 
@@ -2812,7 +2842,13 @@ class Container:
                 dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision == graph_revision_before:
+            if (
+                self._graph_revision == graph_revision_before
+                and not self._is_registered_after_resolver(
+                    resolver=resolver,
+                    dependency=dependency,
+                )
+            ):
                 raise
             resolver = self.compile()
             return await resolver.aresolve(dependency)
-- 
2.43.0


From 65d7839a8cc0d7c5f7241568a718b6ad7968981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:42 +0000
Subject: [PATCH 23/50] fix: context values do not deepen the scope inferred
 for an injected function

---
 src/diwire/_internal/container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 500d424..48d2914 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2074,6 +2074,9 @@ class Container:
         known_level = cache.get(original_dependency)
         if known_level is not None:
             return known_level
+        if is_from_context_annotation(dependency):
+            # Context values need no provider, whatever is registered for their type.
+            return self._root_scope.level
         if is_maybe_annotation(dependency):
             maybe_inner_dependency = strip_non_component_annotation(
                 strip_maybe_annotation(dependency)
-- 
2.43.0


From 1625de58ad63ebf2b6a4b10bbef9f4e0e4314525 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 24/50] fix: an exact registration of a closed generic wins
 even when it fails

---
 src/diwire/_internal/open_generics.py | 29 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 29d7f92..8ca9b8d 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -374,6 +374,9 @@ class _OpenGenericResolver:  # pragma: no cover
                     return self._base_resolver.resolve(normalized_dependency)
                 except DIWireDependencyNotRegisteredError:
                     pass
+            # A registered provider failed because something it needs is missing.
+            if self._is_registered_in_base(dependency):
+                raise
 
             open_match = self._registry.find_best_match(dependency)
             match_dependency = dependency
@@ -405,6 +408,9 @@ class _OpenGenericResolver:  # pragma: no cover
                     return await self._base_resolver.aresolve(normalized_dependency)
                 except DIWireDependencyNotRegisteredError:
                     pass
+            # A registered provider failed because something it needs is missing.
+            if self._is_registered_in_base(dependency):
+                raise
 
             open_match = self._registry.find_best_match(dependency)
             match_dependency = dependency
@@ -419,21 +425,26 @@ class _OpenGenericResolver:  # pragma: no cover
             )
 
     def _is_registered_dependency(self, dependency: Any) -> bool:
-        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
-        normalized_dependency = strip_non_component_annotation(dependency)
-        if callable(base_registered_checker):
-            if base_registered_checker(dependency):
-                return True
-            if normalized_dependency is not dependency and base_registered_checker(
-                normalized_dependency
-            ):
-                return True
+        if self._is_registered_in_base(dependency):
+            return True
         if self._registry.find_best_match(dependency) is not None:
             return True
+        normalized_dependency = strip_non_component_annotation(dependency)
         if normalized_dependency is dependency:
             return False
         return self._registry.find_best_match(normalized_dependency) is not None
 
+    def _is_registered_in_base(self, dependency: Any) -> bool:
+        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
+        if not callable(base_registered_checker):
+            return False
+        if base_registered_checker(dependency):
+            return True
+        normalized_dependency = strip_non_component_annotation(dependency)
+        if normalized_dependency is dependency:
+            return False
+        return bool(base_registered_checker(normalized_dependency))
+
     def _resolve_maybe_sync(self, *, dependency: Any) -> Any:
         if not is_maybe_annotation(dependency):
             return _MAYBE_UNHANDLED
-- 
2.43.0


From e0a5e4844f2706c314d9a07e2f7ccfb83f83023b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 25/50] fix: absent optional dependencies of open generics
 leave the parameter default

---
 src/diwire/_internal/open_generics.py | 57 ++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 8ca9b8d..50a67f5 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import dataclasses
 import inspect
 import threading
 from collections.abc import Iterable, Mapping
@@ -12,6 +13,7 @@ from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
     is_maybe_annotation,
@@ -46,6 +48,11 @@ OpenProviderKind = Literal["concrete_type", "factory", "generator", "context_man
 OpenBindingKind = Literal["dependency", "generic_argument", "generic_argument_type"]
 _MISSING_CACHE = object()
 _MAYBE_UNHANDLED = object()
+_DATACLASS_DEFAULT_FACTORY_SENTINEL: Any = getattr(
+    dataclasses,
+    "_HAS_DEFAULT_FACTORY",
+    object(),
+)
 
 
 @dataclass(frozen=True, slots=True)
@@ -452,7 +459,7 @@ class _OpenGenericResolver:  # pragma: no cover
         inner_dependency = strip_maybe_annotation(dependency)
         if is_from_context_annotation(inner_dependency):
             return self._resolve_maybe_from_context_sync(inner_dependency)
-        if not self._is_registered_dependency(inner_dependency):
+        if not self._is_supplied(inner_dependency):
             return None
         return self.resolve(inner_dependency)
 
@@ -463,7 +470,7 @@ class _OpenGenericResolver:  # pragma: no cover
         inner_dependency = strip_maybe_annotation(dependency)
         if is_from_context_annotation(inner_dependency):
             return await self._resolve_maybe_from_context_async(inner_dependency)
-        if not self._is_registered_dependency(inner_dependency):
+        if not self._is_supplied(inner_dependency):
             return None
         return await self.aresolve(inner_dependency)
 
@@ -487,6 +494,18 @@ class _OpenGenericResolver:  # pragma: no cover
         except DIWireDependencyNotRegisteredError:
             return None
 
+    def _has_context_value(self, dependency: Any) -> bool:
+        context_key = strip_non_component_annotation(strip_from_context_annotation(dependency))
+        resolve_from_context = getattr(self._base_resolver, "_resolve_from_context", None)
+        try:
+            if callable(resolve_from_context):
+                resolve_from_context(context_key)
+            else:
+                self._base_resolver.resolve(dependency)
+        except DIWireDependencyNotRegisteredError:
+            return False
+        return True
+
     def enter_scope(
         self,
         scope: BaseScope | None = None,
@@ -776,6 +795,10 @@ class _OpenGenericResolver:  # pragma: no cover
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
         for binding in match.spec.bindings:
+            if self._takes_parameter_default(binding=binding, typevar_map=match.typevar_map):
+                if binding.dependency.parameter.kind is inspect.Parameter.POSITIONAL_ONLY:
+                    positional_arguments.append(binding.dependency.parameter.default)
+                continue
             value = self._resolve_binding_value_sync(
                 binding=binding,
                 typevar_map=match.typevar_map,
@@ -797,6 +820,10 @@ class _OpenGenericResolver:  # pragma: no cover
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
         for binding in match.spec.bindings:
+            if self._takes_parameter_default(binding=binding, typevar_map=match.typevar_map):
+                if binding.dependency.parameter.kind is inspect.Parameter.POSITIONAL_ONLY:
+                    positional_arguments.append(binding.dependency.parameter.default)
+                continue
             value = await self._resolve_binding_value_async(
                 binding=binding,
                 typevar_map=match.typevar_map,
@@ -814,6 +841,32 @@ class _OpenGenericResolver:  # pragma: no cover
             kwargs=keyword_arguments,
         )
 
+    def _takes_parameter_default(
+        self,
+        *,
+        binding: _OpenGenericBindingPlan,
+        typevar_map: Mapping[TypeVar, Any],
+    ) -> bool:
+        """Return whether nothing supplies a parameter that has a default."""
+        default = binding.dependency.parameter.default
+        if default is inspect.Parameter.empty or binding.kind != "dependency":
+            return False
+        dependency = substitute_typevars(binding.template, mapping=typevar_map)
+        if is_maybe_annotation(dependency):
+            return not self._is_supplied(strip_maybe_annotation(dependency))
+        if default is _DATACLASS_DEFAULT_FACTORY_SENTINEL:
+            return not self._is_supplied(dependency)
+        return False
+
+    def _is_supplied(self, dependency: Any) -> bool:
+        if is_from_context_annotation(dependency):
+            return self._has_context_value(dependency)
+        if is_all_annotation(dependency):
+            return True
+        if is_provider_annotation(dependency):
+            return self._is_registered_dependency(strip_provider_annotation(dependency))
+        return self._is_registered_dependency(dependency)
+
     def _resolve_binding_value_sync(
         self,
         *,
-- 
2.43.0


From 6aed41428ec6ccbfa8cd9e2df46e76a0c3decf2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 26/50] fix: open-generic dependencies reach their own
 parameter in every signature

---
 src/diwire/_internal/open_generics.py | 122 +++++++++++++++++++-------
 1 file changed, 90 insertions(+), 32 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 50a67f5..bf85e8c 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -77,6 +77,7 @@ class _OpenGenericSpec:
     bindings: tuple[_OpenGenericBindingPlan, ...]
     registration_order: int
     provider_is_inject_wrapper: bool
+    parameters: tuple[inspect.Parameter, ...]
 
     @property
     def requires_async(self) -> bool:
@@ -291,6 +292,7 @@ class _OpenGenericRegistry:
             bindings=bindings,
             registration_order=self._registration_counter,
             provider_is_inject_wrapper=bool(getattr(provider, INJECT_WRAPPER_MARKER, False)),
+            parameters=_call_parameters(provider=provider, dependencies=dependencies),
         )
         self._specs_by_key[canonical_key] = spec
         return spec
@@ -792,54 +794,32 @@ class _OpenGenericResolver:  # pragma: no cover
         )
 
     def _resolve_call_arguments_sync(self, *, match: _OpenGenericMatch) -> _CallArguments:
-        positional_arguments: list[Any] = []
-        keyword_arguments: dict[str, Any] = {}
+        values: dict[str, Any] = {}
         for binding in match.spec.bindings:
             if self._takes_parameter_default(binding=binding, typevar_map=match.typevar_map):
-                if binding.dependency.parameter.kind is inspect.Parameter.POSITIONAL_ONLY:
-                    positional_arguments.append(binding.dependency.parameter.default)
                 continue
-            value = self._resolve_binding_value_sync(
+            values[binding.dependency.parameter.name] = self._resolve_binding_value_sync(
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
-            _append_call_argument(
-                dependency=binding.dependency,
-                value=value,
-                positional_arguments=positional_arguments,
-                keyword_arguments=keyword_arguments,
-            )
+        call_arguments = _bind_call_arguments(spec=match.spec, values=values)
         if match.spec.provider_is_inject_wrapper:
-            keyword_arguments[INJECT_RESOLVER_KWARG] = self
-        return _CallArguments(
-            args=tuple(positional_arguments),
-            kwargs=keyword_arguments,
-        )
+            call_arguments.kwargs[INJECT_RESOLVER_KWARG] = self
+        return call_arguments
 
     async def _resolve_call_arguments_async(self, *, match: _OpenGenericMatch) -> _CallArguments:
-        positional_arguments: list[Any] = []
-        keyword_arguments: dict[str, Any] = {}
+        values: dict[str, Any] = {}
         for binding in match.spec.bindings:
             if self._takes_parameter_default(binding=binding, typevar_map=match.typevar_map):
-                if binding.dependency.parameter.kind is inspect.Parameter.POSITIONAL_ONLY:
-                    positional_arguments.append(binding.dependency.parameter.default)
                 continue
-            value = await self._resolve_binding_value_async(
+            values[binding.dependency.parameter.name] = await self._resolve_binding_value_async(
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
-            _append_call_argument(
-                dependency=binding.dependency,
-                value=value,
-                positional_arguments=positional_arguments,
-                keyword_arguments=keyword_arguments,
-            )
+        call_arguments = _bind_call_arguments(spec=match.spec, values=values)
         if match.spec.provider_is_inject_wrapper:
-            keyword_arguments[INJECT_RESOLVER_KWARG] = self
-        return _CallArguments(
-            args=tuple(positional_arguments),
-            kwargs=keyword_arguments,
-        )
+            call_arguments.kwargs[INJECT_RESOLVER_KWARG] = self
+        return call_arguments
 
     def _takes_parameter_default(
         self,
@@ -1057,6 +1037,84 @@ class _CallArguments:
     kwargs: dict[str, Any]
 
 
+def _bind_call_arguments(*, spec: _OpenGenericSpec, values: Mapping[str, Any]) -> _CallArguments:
+    """Bind values to the provider's parameters, in the order of its signature.
+
+    ``*args`` values can only be passed by position, so the parameters before them
+    are passed by position too, with their defaults when nothing supplies them.
+    """
+    positional_arguments: list[Any] = []
+    keyword_arguments: dict[str, Any] = {}
+    dependency_by_name = {
+        binding.dependency.parameter.name: binding.dependency for binding in spec.bindings
+    }
+    by_position = _parameters_passed_by_position(
+        parameters=spec.parameters,
+        dependency_by_name=dependency_by_name,
+        values=values,
+    )
+    for parameter in spec.parameters:
+        if parameter.name not in values:
+            if parameter.name in by_position and parameter.default is not inspect.Parameter.empty:
+                positional_arguments.append(parameter.default)
+            continue
+        value = values[parameter.name]
+        if (
+            parameter.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD
+            and parameter.name in by_position
+        ):
+            positional_arguments.append(value)
+            continue
+        _append_call_argument(
+            dependency=dependency_by_name[parameter.name],
+            value=value,
+            positional_arguments=positional_arguments,
+            keyword_arguments=keyword_arguments,
+        )
+    return _CallArguments(args=tuple(positional_arguments), kwargs=keyword_arguments)
+
+
+def _call_parameters(
+    *,
+    provider: UserProviderObject,
+    dependencies: list[ProviderDependency],
+) -> tuple[inspect.Parameter, ...]:
+    """Return the provider's parameters, or those of its dependencies if it shows others."""
+    dependency_parameters = tuple(dependency.parameter for dependency in dependencies)
+    try:
+        parameters = tuple(inspect.signature(cast("Any", provider)).parameters.values())
+    except (TypeError, ValueError):
+        return dependency_parameters
+    names = {parameter.name for parameter in parameters}
+    if any(parameter.name not in names for parameter in dependency_parameters):
+        return dependency_parameters
+    return parameters
+
+
+def _parameters_passed_by_position(
+    *,
+    parameters: tuple[inspect.Parameter, ...],
+    dependency_by_name: Mapping[str, ProviderDependency],
+    values: Mapping[str, Any],
+) -> set[str]:
+    """Return parameters that a later positional value makes positional."""
+    last_index = -1
+    for index, parameter in enumerate(parameters):
+        if parameter.name not in values or parameter.name not in dependency_by_name:
+            continue
+        if parameter.kind in {
+            inspect.Parameter.POSITIONAL_ONLY,
+            inspect.Parameter.VAR_POSITIONAL,
+        }:
+            last_index = index
+    return {
+        parameter.name
+        for parameter in parameters[: last_index + 1]
+        if parameter.kind
+        in {inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD}
+    }
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
-- 
2.43.0


From 487d1560eaaf9a444d3e101dbbd1047f75c022b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 27/50] fix: closed generics are locked and refused by what
 their dependencies need

---
 src/diwire/_internal/open_generics.py         | 119 +++++++++++++++---
 .../_internal/resolvers/assembly/compiler.py  |  14 +++
 2 files changed, 114 insertions(+), 19 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index bf85e8c..6795351 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -37,6 +37,7 @@ from diwire.exceptions import (
     DIWireAsyncDependencyInSyncContextError,
     DIWireDependencyNotRegisteredError,
     DIWireInvalidGenericTypeArgumentError,
+    DIWireInvalidProviderSpecError,
     DIWireScopeMismatchError,
 )
 
@@ -364,6 +365,7 @@ class _OpenGenericResolver:  # pragma: no cover
             getattr(base_resolver, "_cleanup_enabled", True),
         )
         self._owned_scope_wrappers: tuple[_OpenGenericResolver, ...] = ()
+        self._requires_async_by_key: dict[Any, bool] = {}
 
     def resolve(self, dependency: Any) -> Any:
         maybe_value = self._resolve_maybe_sync(dependency=dependency)
@@ -669,7 +671,7 @@ class _OpenGenericResolver:  # pragma: no cover
         dependency: Any,
         match: _OpenGenericMatch,
     ) -> Any:
-        if match.spec.requires_async:
+        if self._requires_async(dependency=dependency, match=match):
             msg = f"Dependency {dependency!r} requires asynchronous resolution."
             raise DIWireAsyncDependencyInSyncContextError(msg)
 
@@ -680,7 +682,7 @@ class _OpenGenericResolver:  # pragma: no cover
             if cached_value is not _MISSING_CACHE:
                 return cached_value
 
-            if self._uses_thread_lock(match.spec):
+            if self._effective_lock_mode(match.spec) is LockMode.THREAD:
                 lock = cache_owner.get_thread_lock(dependency)
                 with lock:
                     cached_value = cache_owner.get_cached(dependency)
@@ -702,6 +704,9 @@ class _OpenGenericResolver:  # pragma: no cover
         dependency: Any,
         match: _OpenGenericMatch,
     ) -> Any:
+        if not self._requires_async(dependency=dependency, match=match):
+            return self._resolve_open_match_sync(dependency=dependency, match=match)
+
         execution_owner = self._resolve_execution_owner(match.spec)
         cache_owner = self._resolve_cache_owner(match.spec)
         if cache_owner is not None:
@@ -709,7 +714,7 @@ class _OpenGenericResolver:  # pragma: no cover
             if cached_value is not _MISSING_CACHE:
                 return cached_value
 
-            if self._uses_async_lock(match.spec):
+            if self._effective_lock_mode(match.spec) is LockMode.ASYNC:
                 lock = cache_owner.get_async_lock(dependency)
                 async with lock:
                     cached_value = cache_owner.get_cached(dependency)
@@ -859,14 +864,9 @@ class _OpenGenericResolver:  # pragma: no cover
                 raise DIWireInvalidGenericTypeArgumentError(msg)
             return typevar_map[binding.typevar]
 
-        resolved_dependency = substitute_typevars(binding.template, mapping=typevar_map)
-        if contains_typevar(resolved_dependency):
-            msg = (
-                f"Open generic dependency pattern {binding.template!r} still contains "
-                "unresolved TypeVars after substitution."
-            )
-            raise DIWireInvalidGenericTypeArgumentError(msg)
-        return self.resolve(resolved_dependency)
+        return self.resolve(
+            self._substitute_binding_template(binding=binding, typevar_map=typevar_map),
+        )
 
     async def _resolve_binding_value_async(
         self,
@@ -880,6 +880,16 @@ class _OpenGenericResolver:  # pragma: no cover
                 raise DIWireInvalidGenericTypeArgumentError(msg)
             return typevar_map[binding.typevar]
 
+        return await self.aresolve(
+            self._substitute_binding_template(binding=binding, typevar_map=typevar_map),
+        )
+
+    def _substitute_binding_template(
+        self,
+        *,
+        binding: _OpenGenericBindingPlan,
+        typevar_map: Mapping[TypeVar, Any],
+    ) -> Any:
         resolved_dependency = substitute_typevars(binding.template, mapping=typevar_map)
         if contains_typevar(resolved_dependency):
             msg = (
@@ -887,7 +897,7 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
-        return await self.aresolve(resolved_dependency)
+        return resolved_dependency
 
     def _build_generator_sync(
         self,
@@ -1009,15 +1019,86 @@ class _OpenGenericResolver:  # pragma: no cover
             return self._root_wrapper
         return None
 
-    def _uses_thread_lock(self, spec: _OpenGenericSpec) -> bool:
-        if spec.requires_async:
-            return False
-        return self._effective_lock_mode(spec) is LockMode.THREAD
+    def _requires_async(self, *, dependency: Any, match: _OpenGenericMatch) -> bool:
+        """Return whether a closed key needs an async provider among its eager dependencies.
 
-    def _uses_async_lock(self, spec: _OpenGenericSpec) -> bool:
-        if not spec.requires_async:
+        A dependency cycle or a missing mandatory dependency is refused here, before
+        any provider of the key runs.
+        """
+        known = self._root_wrapper.requires_async_by_key.get(dependency)
+        if known is not None:
+            return known
+        return self._infer_requires_async(dependency=dependency, match=match, in_progress=set())
+
+    @property
+    def requires_async_by_key(self) -> dict[Any, bool]:
+        return self._requires_async_by_key
+
+    def _infer_requires_async(
+        self,
+        *,
+        dependency: Any,
+        match: _OpenGenericMatch,
+        in_progress: set[Any],
+    ) -> bool:
+        requires_async_by_key = self._root_wrapper.requires_async_by_key
+        known = requires_async_by_key.get(dependency)
+        if known is not None:
+            return known
+        if dependency in in_progress:
+            msg = f"Circular dependency detected while resolving open generic {dependency!r}."
+            raise DIWireInvalidProviderSpecError(msg)
+
+        in_progress.add(dependency)
+        requires_async = match.spec.requires_async
+        for binding in match.spec.bindings:
+            if binding.kind == "dependency" and self._binding_requires_async(
+                binding=binding,
+                typevar_map=match.typevar_map,
+                in_progress=in_progress,
+            ):
+                requires_async = True
+        in_progress.remove(dependency)
+        requires_async_by_key[dependency] = requires_async
+        return requires_async
+
+    def _binding_requires_async(
+        self,
+        *,
+        binding: _OpenGenericBindingPlan,
+        typevar_map: Mapping[TypeVar, Any],
+        in_progress: set[Any],
+    ) -> bool:
+        dependency = self._substitute_binding_template(binding=binding, typevar_map=typevar_map)
+        is_optional = is_maybe_annotation(dependency)
+        if is_optional:
+            dependency = strip_maybe_annotation(dependency)
+        if is_from_context_annotation(dependency) or is_provider_annotation(dependency):
             return False
-        return self._effective_lock_mode(spec) is LockMode.ASYNC
+        base_requires_async = getattr(self._base_resolver, "_is_async_dependency", None)
+        if callable(base_requires_async) and (
+            is_all_annotation(dependency) or self._is_registered_in_base(dependency)
+        ):
+            return bool(base_requires_async(dependency))
+
+        open_match = self._registry.find_best_match(dependency)
+        if open_match is None:
+            dependency = strip_non_component_annotation(dependency)
+            open_match = self._registry.find_best_match(dependency)
+        if open_match is not None:
+            return self._infer_requires_async(
+                dependency=dependency,
+                match=open_match,
+                in_progress=in_progress,
+            )
+        if (
+            callable(base_requires_async)
+            and not is_optional
+            and binding.dependency.parameter.default is not _DATACLASS_DEFAULT_FACTORY_SENTINEL
+        ):
+            msg = f"Dependency {dependency!r} is not registered."
+            raise DIWireDependencyNotRegisteredError(msg)
+        return False
 
     def _effective_lock_mode(self, spec: _OpenGenericSpec) -> LockMode:
         if spec.lock_mode == "auto":
diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 224c81c..79bc72f 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -387,6 +387,7 @@ class ResolversAssemblyCompiler:
                 ],
                 generated_globals=generated_globals,
             )
+            attrs["_is_async_dependency"] = _resolver_is_async_dependency
             attrs["_is_registered_dependency"] = self._compile_simple_method(
                 name="_is_registered_dependency",
                 arg_names=("self", "dependency"),
@@ -2096,6 +2097,19 @@ def _resolver_is_registered_dependency(self: Any, dependency: Any) -> bool:
     return normalized_dependency in runtime.dep_registered_keys
 
 
+def _resolver_is_async_dependency(self: Any, dependency: Any) -> bool:
+    runtime = type(self)._runtime
+    if is_all_annotation(dependency):
+        inner = strip_non_component_annotation(strip_all_annotation(dependency))
+        slots = runtime.all_slots_by_key.get(inner, ())
+    else:
+        keys = (dependency, strip_non_component_annotation(dependency))
+        slots = tuple(
+            slot for slot, dep_type in runtime.dep_type_by_slot.items() if dep_type in keys
+        )
+    return any(runtime.workflows_by_slot[slot].requires_async for slot in slots)
+
+
 def _resolver_exit(
     self: Any,
     exc_type: type[BaseException] | None,
-- 
2.43.0


From 26c36751dc50793a9747099c73828dbe0c3aa335 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 28/50] fix: open scopes keep the open-generic registrations
 they were opened with

---
 src/diwire/_internal/container.py     | 3 ++-
 src/diwire/_internal/open_generics.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 48d2914..c7609df 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2522,7 +2522,8 @@ class Container:
                         "ResolverProtocol",
                         OpenGenericResolver(
                             base_resolver=root_resolver,
-                            registry=self._open_generic_registry,
+                            # Open scopes keep the registrations they were opened with.
+                            registry=self._open_generic_registry.copy(),
                             root_scope=self._root_scope,
                             has_async_specs=has_async_specs,
                             scope_level=self._root_scope.level,
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 6795351..2b21d1d 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -240,6 +240,12 @@ class _OpenGenericRegistry:
         self._specs_by_key = dict(snapshot.specs_by_key)
         self._registration_counter = snapshot.registration_counter
 
+    def copy(self) -> _OpenGenericRegistry:
+        """Return a registry of the current specs that later registrations do not change."""
+        registry = _OpenGenericRegistry()
+        registry.restore(self.snapshot())
+        return registry
+
     def has_specs(self) -> bool:
         return bool(self._specs_by_key)
 
-- 
2.43.0


From 12df982ed58c892be4e83432e686879cb85a9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 29/50] fix: open generics never answer context values or
 collections with a provider

---
 src/diwire/_internal/open_generics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 2b21d1d..dd0321b 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -382,6 +382,9 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_from_context_annotation(dependency) or is_all_annotation(dependency):
+            # Never served by a provider of the annotated type itself.
+            return self._base_resolver.resolve(dependency)
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
@@ -416,6 +419,9 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_from_context_annotation(dependency) or is_all_annotation(dependency):
+            # Never served by a provider of the annotated type itself.
+            return await self._base_resolver.aresolve(dependency)
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
-- 
2.43.0


From 614ca840a28c50c20a16933b74a957e2a8b784a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 30/50] fix: Provider and All dependencies of open generics get
 the type arguments

---
 src/diwire/_internal/open_generics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index dd0321b..7901f40 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -13,6 +13,8 @@ from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    AllMarker,
+    ProviderMarker,
     is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
@@ -165,6 +167,10 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     """
     if isinstance(value, TypeVar):
         return mapping.get(value, value)
+    if isinstance(value, (ProviderMarker, AllMarker)):
+        return value._replace(
+            dependency_key=substitute_typevars(value.dependency_key, mapping=mapping),
+        )
 
     origin = get_origin(value)
     if origin is None:
-- 
2.43.0


From be297a57b514f5365dca5cf83a9f1a573b582287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 31/50] fix: decorating an open generic does not make it
 override another one

---
 src/diwire/_internal/container.py     | 5 +++++
 src/diwire/_internal/open_generics.py | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index c7609df..a39c843 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1094,6 +1094,7 @@ class Container:
                 is_any_dependency_async=open_spec.is_any_dependency_async,
                 needs_cleanup=open_spec.needs_cleanup,
                 dependencies=dependencies,
+                registration_order=open_spec.registration_order,
             )
             return
 
@@ -1243,6 +1244,8 @@ class Container:
             is_any_dependency_async=is_any_dependency_async,
             needs_cleanup=False,
             dependencies=dependencies,
+            # Decorating a binding does not make it override another one.
+            registration_order=metadata.registration_order,
         )
         if registered_spec is None:
             msg = f"Cannot register open-generic decorator layer for key {provides!r}."
@@ -1264,6 +1267,7 @@ class Container:
                 scope=open_spec.scope,
                 lock_mode=open_spec.lock_mode,
                 is_open_generic=True,
+                registration_order=open_spec.registration_order,
             )
 
         provider_spec = self._providers_registrations.find_by_type(base_key)
@@ -3090,6 +3094,7 @@ class _DecorationBaseMetadata:
     scope: BaseScope
     lock_mode: LockMode | Literal["auto"]
     is_open_generic: bool
+    registration_order: int | None = None
 
 
 @dataclass(frozen=True, slots=True)
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 7901f40..428b800 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -277,6 +277,7 @@ class _OpenGenericRegistry:
         is_any_dependency_async: bool,
         needs_cleanup: bool,
         dependencies: list[ProviderDependency],
+        registration_order: int | None = None,
     ) -> _OpenGenericSpec | None:
         canonical_key = canonicalize_open_key(provides)
         if canonical_key is None:
@@ -291,7 +292,9 @@ class _OpenGenericRegistry:
             for dependency in dependencies
         )
 
-        self._registration_counter += 1
+        if registration_order is None:
+            self._registration_counter += 1
+            registration_order = self._registration_counter
         spec = _OpenGenericSpec(
             canonical_key=canonical_key,
             provider_kind=provider_kind,
@@ -303,7 +306,7 @@ class _OpenGenericRegistry:
             is_any_dependency_async=is_any_dependency_async,
             needs_cleanup=needs_cleanup,
             bindings=bindings,
-            registration_order=self._registration_counter,
+            registration_order=registration_order,
             provider_is_inject_wrapper=bool(getattr(provider, INJECT_WRAPPER_MARKER, False)),
             parameters=_call_parameters(provider=provider, dependencies=dependencies),
         )
-- 
2.43.0


From e4e9c50f4ebb1c449e777961b29d32c87bb6aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 32/50] fix: a failing registered provider is not retried where
 open generics are registered

---
 src/diwire/_internal/open_generics.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 428b800..448da3c 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -398,11 +398,6 @@ class _OpenGenericResolver:  # pragma: no cover
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
             normalized_dependency = strip_non_component_annotation(dependency)
-            if normalized_dependency is not dependency:
-                try:
-                    return self._base_resolver.resolve(normalized_dependency)
-                except DIWireDependencyNotRegisteredError:
-                    pass
             # A registered provider failed because something it needs is missing.
             if self._is_registered_in_base(dependency):
                 raise
@@ -435,11 +430,6 @@ class _OpenGenericResolver:  # pragma: no cover
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
             normalized_dependency = strip_non_component_annotation(dependency)
-            if normalized_dependency is not dependency:
-                try:
-                    return await self._base_resolver.aresolve(normalized_dependency)
-                except DIWireDependencyNotRegisteredError:
-                    pass
             # A registered provider failed because something it needs is missing.
             if self._is_registered_in_base(dependency):
                 raise
-- 
2.43.0


From 5de6eae3fe4a3124c071dd34431bfdb5e13a62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 33/50] fix: open generics of one scope are not released with
 another

---
 src/diwire/_internal/open_generics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 448da3c..e0b2c53 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -996,6 +996,14 @@ class _OpenGenericResolver:  # pragma: no cover
         self._cleanup_callbacks.append((kind, callback))
 
     def _resolver_cleanup_callbacks(self) -> list[tuple[int, Any]] | None:
+        runtime = getattr(type(self._base_resolver), "_runtime", None)
+        if (
+            self._parent_wrapper is not None
+            and runtime is not None
+            and runtime.uses_stateless_scope_reuse
+        ):
+            # Every scope of this level shares the resolver, and so its callbacks.
+            return None
         callbacks = getattr(self._base_resolver, "_cleanup_callbacks", None)
         if isinstance(callbacks, list):
             return callbacks
-- 
2.43.0


From d74e8c178e505b39d2985f6e14b628bea7e238a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 34/50] fix: type variable bounds admit the members of unions,
 new types and explicit protocol implementations

---
 src/diwire/_internal/open_generics.py | 42 ++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e0b2c53..d5cc932 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -6,8 +6,20 @@ import threading
 from collections.abc import Iterable, Mapping
 from contextlib import asynccontextmanager, contextmanager
 from dataclasses import dataclass
-from types import TracebackType
-from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
+from types import TracebackType, UnionType
+from typing import (
+    TYPE_CHECKING,
+    Annotated,
+    Any,
+    Literal,
+    NewType,
+    NoReturn,
+    TypeVar,
+    Union,
+    cast,
+    get_args,
+    get_origin,
+)
 
 from diwire._internal.event_loop_lock import EventLoopLock
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
@@ -1458,14 +1470,36 @@ def _is_type_argument_valid(*, typevar: TypeVar, argument: Any) -> bool:
 def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     if constraint is Any:
         return True
+    if get_origin(argument) is Annotated:
+        return _matches_type_constraint(argument=get_args(argument)[0], constraint=constraint)
+    if _is_union(argument):
+        return all(
+            _matches_type_constraint(argument=member, constraint=constraint)
+            for member in get_args(argument)
+        )
+    if _is_union(constraint):
+        return any(
+            _matches_type_constraint(argument=argument, constraint=member)
+            for member in get_args(constraint)
+        )
+    if isinstance(argument, NewType) and argument != constraint:
+        return _matches_type_constraint(argument=argument.__supertype__, constraint=constraint)
     argument_type = _origin_or_self(argument)
     constraint_type = _origin_or_self(constraint)
     if isinstance(argument_type, type) and isinstance(constraint_type, type):
         try:
             return issubclass(argument_type, constraint_type)
         except TypeError:
-            return False
-    return argument == constraint
+            # Protocols may refuse the check, also for the classes that derive from them.
+            return (
+                getattr(constraint_type, "_is_protocol", False)
+                and constraint_type in argument_type.__mro__
+            )
+    return bool(argument == constraint)
+
+
+def _is_union(value: Any) -> bool:
+    return get_origin(value) in {Union, UnionType}
 
 
 def _origin_or_self(value: Any) -> Any:
-- 
2.43.0


From 38c514d517932cca5519d314e87f06967f3e20b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 35/50] fix: closed types inside open generics match however
 they are spelled

---
 src/diwire/_internal/open_generics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index d5cc932..9c904d5 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1374,6 +1374,9 @@ def _match_node(  # noqa: PLR0911
             return True
         return known == concrete
 
+    if template == concrete:
+        return True
+
     template_origin = get_origin(template)
     if template_origin is None:
         template_open = canonicalize_open_key(template)
-- 
2.43.0


From a43839a2d2f3edf9731cf5c15e7d12631b4db92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 36/50] fix: callable type arguments of open generics are
 matched and substituted

---
 src/diwire/_internal/open_generics.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 9c904d5..83cb115 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -154,6 +154,8 @@ def contains_typevar(value: Any) -> bool:
     """
     if isinstance(value, TypeVar):
         return True
+    if isinstance(value, list):
+        return any(contains_typevar(argument) for argument in value)
 
     origin = get_origin(value)
     if origin is not None:
@@ -192,6 +194,11 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     if not arguments:
         return value
 
+    if any(isinstance(argument, list) for argument in arguments):
+        # Parameters of a callable.
+        parameters = tuple(getattr(value, "__parameters__", ()))
+        return value[tuple(mapping.get(item, item) for item in parameters)] if parameters else value
+
     substituted_arguments = tuple(
         substitute_typevars(argument, mapping=mapping) for argument in arguments
     )
@@ -1340,6 +1347,10 @@ def _collect_typevars_into(*, value: Any, found: list[TypeVar]) -> None:
     if isinstance(value, TypeVar):
         found.append(value)
         return
+    if isinstance(value, list):
+        for argument in value:
+            _collect_typevars_into(value=argument, found=found)
+        return
 
     origin = get_origin(value)
     if origin is not None:
@@ -1376,6 +1387,15 @@ def _match_node(  # noqa: PLR0911
 
     if template == concrete:
         return True
+    if isinstance(template, list):
+        return (
+            isinstance(concrete, list)
+            and len(template) == len(concrete)
+            and all(
+                _match_node(template=template_item, concrete=concrete_item, mapping=mapping)
+                for template_item, concrete_item in zip(template, concrete, strict=True)
+            )
+        )
 
     template_origin = get_origin(template)
     if template_origin is None:
-- 
2.43.0


From 07b2be7a0f1c4e4f891ed968f4b246d5e1b10d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:56 +0000
Subject: [PATCH 37/50] fix: absent optional provider handles leave the default
 of an injected function's parameter

---
 src/diwire/_internal/container.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index a39c843..e7ba974 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2213,14 +2213,14 @@ class Container:
                 inner_dependency = strip_maybe_annotation(dependency)
                 if is_from_context_annotation(inner_dependency):
                     continue
-                if is_provider_annotation(inner_dependency):
-                    bound_arguments.arguments[injected_parameter.name] = resolver.resolve(
-                        dependency,
-                    )
-                    continue
+                required_dependency = (
+                    strip_provider_annotation(inner_dependency)
+                    if is_provider_annotation(inner_dependency)
+                    else inner_dependency
+                )
                 if not self._is_registered_in_resolver(
                     resolver=resolver,
-                    dependency=inner_dependency,
+                    dependency=required_dependency,
                 ):
                     parameter = signature.parameters[injected_parameter.name]
                     if parameter.default is inspect.Parameter.empty:
@@ -2268,14 +2268,14 @@ class Container:
                 inner_dependency = strip_maybe_annotation(dependency)
                 if is_from_context_annotation(inner_dependency):
                     continue
-                if is_provider_annotation(inner_dependency):
-                    bound_arguments.arguments[injected_parameter.name] = await resolver.aresolve(
-                        dependency,
-                    )
-                    continue
+                required_dependency = (
+                    strip_provider_annotation(inner_dependency)
+                    if is_provider_annotation(inner_dependency)
+                    else inner_dependency
+                )
                 if not self._is_registered_in_resolver(
                     resolver=resolver,
-                    dependency=inner_dependency,
+                    dependency=required_dependency,
                 ):
                     parameter = signature.parameters[injected_parameter.name]
                     if parameter.default is inspect.Parameter.empty:
-- 
2.43.0


From da5c55a87484cba1b67d73d39f16f9ed789b7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:56 +0000
Subject: [PATCH 38/50] fix: a registration whose open generic refuses a type
 argument of an injected function leaves no trace

---
 src/diwire/_internal/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index e7ba974..2fea709 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -73,6 +73,7 @@ from diwire._internal.validators import DependecyRegistrationValidator
 from diwire.exceptions import (
     DIWireDependencyNotRegisteredError,
     DIWireError,
+    DIWireInvalidGenericTypeArgumentError,
     DIWireInvalidRegistrationError,
     DIWireScopeMismatchError,
 )
@@ -2576,7 +2577,7 @@ class Container:
             yield
             if self._registration_mutation_depth == 1:
                 self._revalidate_injected_scope_contracts()
-        except DIWireInvalidRegistrationError:
+        except (DIWireInvalidRegistrationError, DIWireInvalidGenericTypeArgumentError):
             self._registration_mutation_failed = True
             raise
         finally:
-- 
2.43.0


From 9d0348ae480ee5d8889c7f2af65727e9b9672cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 39/50] fix: asynchronous callable objects are asynchronous
 providers

---
 src/diwire/_internal/callables.py | 31 ++++++++++++++++++++++++
 src/diwire/_internal/providers.py | 39 +++++++++++++++++--------------
 2 files changed, 53 insertions(+), 17 deletions(-)
 create mode 100644 src/diwire/_internal/callables.py

diff --git a/src/diwire/_internal/callables.py b/src/diwire/_internal/callables.py
new file mode 100644
index 0000000..bba0af0
--- /dev/null
+++ b/src/diwire/_internal/callables.py
@@ -0,0 +1,31 @@
+from __future__ import annotations
+
+import functools
+import inspect
+from collections.abc import Callable
+from typing import Any
+
+
+def annotated_callable(callable_obj: Callable[..., Any]) -> Callable[..., Any]:
+    """Return the callable whose annotations describe the parameters of a callable.
+
+    Args:
+        callable_obj: Function, class or other callable object.
+
+    """
+    if inspect.isclass(callable_obj) or hasattr(callable_obj, "__wrapped__"):
+        return callable_obj
+    call_method = type(callable_obj).__call__
+    return call_method if inspect.isfunction(call_method) else callable_obj
+
+
+def called_callable(callable_obj: Callable[..., Any]) -> Callable[..., Any]:
+    """Return the function or class that runs when a callable is called.
+
+    Args:
+        callable_obj: Function, class, partial application or other callable object.
+
+    """
+    while isinstance(callable_obj, functools.partial):
+        callable_obj = callable_obj.func
+    return annotated_callable(callable_obj)
diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index feff2f4..f75919c 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -21,6 +21,7 @@ from typing import (
     get_type_hints,
 )
 
+from diwire._internal.callables import annotated_callable, called_callable
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.scope import BaseScope
 from diwire.exceptions import (
@@ -565,7 +566,7 @@ class ProviderDependenciesExtractor:
 
         try:
             annotations = get_type_hints(
-                self._annotated_callable(provider),
+                annotated_callable(provider),
                 include_extras=True,
             )
         except (AttributeError, NameError, TypeError) as error:
@@ -580,13 +581,6 @@ class ProviderDependenciesExtractor:
 
         return annotations, annotation_error
 
-    def _annotated_callable(self, provider: Callable[..., Any]) -> Callable[..., Any]:
-        """Return the callable whose annotations describe the parameters of a provider."""
-        if inspect.isclass(provider) or hasattr(provider, "__wrapped__"):
-            return provider
-        call_method = type(provider).__call__
-        return call_method if inspect.isfunction(call_method) else provider
-
     def _merge_concrete_type_callable_hints(
         self,
         *,
@@ -652,7 +646,9 @@ class ProviderReturnTypeExtractor:
             factory: Factory provider callable to inspect or validate.
 
         """
-        return inspect.iscoroutinefunction(factory) or self.return_annotation_matches_origins(
+        return inspect.iscoroutinefunction(
+            called_callable(factory),
+        ) or self.return_annotation_matches_origins(
             provider=factory,
             expected_origins=(Awaitable, Coroutine),
         )
@@ -667,7 +663,9 @@ class ProviderReturnTypeExtractor:
             generator: Generator provider callable to inspect or validate.
 
         """
-        return inspect.isasyncgenfunction(generator) or self.return_annotation_matches_origins(
+        return inspect.isasyncgenfunction(
+            called_callable(generator),
+        ) or self.return_annotation_matches_origins(
             provider=generator,
             expected_origins=(AsyncGenerator,),
         )
@@ -682,7 +680,7 @@ class ProviderReturnTypeExtractor:
             context_manager: Context manager provider callable to inspect or validate.
 
         """
-        unwrapped_context_manager = inspect.unwrap(context_manager)
+        unwrapped_context_manager = inspect.unwrap(called_callable(context_manager))
         if inspect.isasyncgenfunction(unwrapped_context_manager):
             return True
         if inspect.iscoroutinefunction(unwrapped_context_manager):
@@ -812,8 +810,9 @@ class ProviderReturnTypeExtractor:
             if yielded_type is not _MISSING_ANNOTATION:
                 return yielded_type
 
-        if isinstance(context_manager, type):
-            managed_type = self._infer_managed_type_from_cm_type(context_manager)
+        called_context_manager = called_callable(context_manager)
+        if isinstance(called_context_manager, type):
+            managed_type = self._infer_managed_type_from_cm_type(called_context_manager)
             if managed_type is not _MISSING_ANNOTATION:
                 return managed_type
 
@@ -971,12 +970,18 @@ class ProviderReturnTypeExtractor:
                 annotation_error = error
             return _MISSING_ANNOTATION, annotation_error
 
-        if raw_return_annotation is inspect.Signature.empty or isinstance(
-            raw_return_annotation,
-            str,
-        ):
+        if isinstance(raw_return_annotation, str):
+            called_provider = called_callable(provider)
+            if called_provider is provider:
+                return _MISSING_ANNOTATION, annotation_error
+            return self._resolved_return_annotation(called_provider)
+
+        if raw_return_annotation is inspect.Signature.empty:
             return _MISSING_ANNOTATION, annotation_error
 
+        if raw_return_annotation is None:
+            raw_return_annotation = type(None)
+
         return raw_return_annotation, annotation_error
 
     def _unwrap_factory_return_type(
-- 
2.43.0


From d6e249afe9ae4fbefd89c31c92ee3465ab6b222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 40/50] fix: a class registered as a factory without provides
 is registered under itself

---
 src/diwire/_internal/providers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index f75919c..ebd7230 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -732,6 +732,10 @@ class ProviderReturnTypeExtractor:
             factory: Factory provider callable to inspect or validate.
 
         """
+        called_factory = called_callable(factory)
+        if inspect.isclass(called_factory):
+            return called_factory
+
         return_annotation, annotation_error = self._resolved_return_annotation(factory)
         provider_name = self._provider_name(factory)
         if return_annotation is _MISSING_ANNOTATION:
-- 
2.43.0


From 441edd4892882d92355483ac42e48ff13b01de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 41/50] fix: the inferred key of an asynchronous factory is
 what awaiting its call gives

---
 src/diwire/_internal/providers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index ebd7230..729afbf 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -745,7 +745,9 @@ class ProviderReturnTypeExtractor:
                 annotation_error=annotation_error,
             )
 
-        unwrapped_return_type = self._unwrap_factory_return_type(return_annotation)
+        unwrapped_return_type = return_annotation
+        if not inspect.iscoroutinefunction(called_factory):
+            unwrapped_return_type = self._unwrap_factory_return_type(return_annotation)
         if unwrapped_return_type is _MISSING_ANNOTATION:
             self._raise_invalid_return_annotation_error(
                 provider_kind="factory",
@@ -994,6 +996,12 @@ class ProviderReturnTypeExtractor:
     ) -> Any:
         origin = get_origin(return_annotation)
         annotation_args = get_args(return_annotation)
+        if origin is Annotated:
+            result_type = self._unwrap_factory_return_type(annotation_args[0])
+            if result_type is annotation_args[0] or result_type is _MISSING_ANNOTATION:
+                return return_annotation
+            annotated_args = (result_type, *annotation_args[1:])
+            return Annotated[annotated_args]
         if origin is Awaitable:
             if len(annotation_args) != 1:
                 return _MISSING_ANNOTATION
-- 
2.43.0


From bfc2a7fffc27285d5f1320264dcc34b13d6ec0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 42/50] fix: Self in the return annotation of a provider stands
 for its class

---
 src/diwire/_internal/providers.py | 44 ++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 729afbf..0296ac5 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import functools
 import inspect
 from collections.abc import AsyncGenerator, Awaitable, Callable, Coroutine, Generator
 from contextlib import AbstractAsyncContextManager, AbstractContextManager
@@ -748,6 +749,10 @@ class ProviderReturnTypeExtractor:
         unwrapped_return_type = return_annotation
         if not inspect.iscoroutinefunction(called_factory):
             unwrapped_return_type = self._unwrap_factory_return_type(return_annotation)
+        unwrapped_return_type = self._bind_self_annotation(
+            annotation=unwrapped_return_type,
+            provider=factory,
+        )
         if unwrapped_return_type is _MISSING_ANNOTATION:
             self._raise_invalid_return_annotation_error(
                 provider_kind="factory",
@@ -781,6 +786,7 @@ class ProviderReturnTypeExtractor:
             return_annotation=return_annotation,
             expected_origins=(Generator, AsyncGenerator),
         )
+        yielded_type = self._bind_self_annotation(annotation=yielded_type, provider=generator)
         if yielded_type is _MISSING_ANNOTATION:
             self._raise_invalid_return_annotation_error(
                 provider_kind="generator",
@@ -813,6 +819,10 @@ class ProviderReturnTypeExtractor:
                     AsyncGenerator,
                 ),
             )
+            yielded_type = self._bind_self_annotation(
+                annotation=yielded_type,
+                provider=context_manager,
+            )
             if yielded_type is not _MISSING_ANNOTATION:
                 return yielded_type
 
@@ -913,6 +923,38 @@ class ProviderReturnTypeExtractor:
         )
         return annotation_name == "Self"
 
+    def _bind_self_annotation(
+        self,
+        *,
+        annotation: Any,
+        provider: Callable[..., Any],
+    ) -> Any:
+        """Return the type that a ``Self`` annotation of a provider stands for."""
+        if not self._is_self_annotation(annotation):
+            return annotation
+        while isinstance(provider, functools.partial):
+            provider = provider.func
+        owner = getattr(provider, "__self__", _MISSING_ANNOTATION)
+        if owner is _MISSING_ANNOTATION and not inspect.isfunction(provider):
+            owner = provider
+        if owner is _MISSING_ANNOTATION:
+            return owner
+        return self._replace_self_annotation(
+            annotation=annotation,
+            owner=owner if inspect.isclass(owner) else type(owner),
+        )
+
+    def _replace_self_annotation(
+        self,
+        *,
+        annotation: Any,
+        owner: type[Any],
+    ) -> Any:
+        if get_origin(annotation) is not Annotated:
+            return owner
+        annotated_args = (owner, *get_args(annotation)[1:])
+        return Annotated[annotated_args]
+
     def _infer_managed_type_from_cm_type(
         self,
         cm_type: type[Any],
@@ -934,7 +976,7 @@ class ProviderReturnTypeExtractor:
                 return _MISSING_ANNOTATION
 
         if self._is_self_annotation(managed_type):
-            return cm_type
+            return self._replace_self_annotation(annotation=managed_type, owner=cm_type)
         return managed_type
 
     def _context_manager_mode(
-- 
2.43.0


From 3033dea971a2f54a7e491cd9e6b84ac39b97a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 43/50] fix: injected asynchronous callable objects are awaited
 before their scope ends

---
 src/diwire/_internal/container.py        | 3 ++-
 src/diwire/_internal/injection.py        | 3 ++-
 src/diwire/_internal/resolver_context.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 2fea709..444c607 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -20,6 +20,7 @@ from typing import (
 )
 
 from diwire._internal.autoregistration import ConcreteTypeAutoregistrationPolicy
+from diwire._internal.callables import called_callable
 from diwire._internal.injection import (
     INJECT_CONTEXT_KWARG,
     INJECT_RESOLVER_KWARG,
@@ -1938,7 +1939,7 @@ class Container:
             auto_open_scope=auto_open_scope,
         )
 
-        if inspect.iscoroutinefunction(callable_obj):
+        if inspect.iscoroutinefunction(called_callable(callable_obj)):
 
             @functools.wraps(callable_obj)
             async def _async_injected(*args: Any, **kwargs: Any) -> Any:
diff --git a/src/diwire/_internal/injection.py b/src/diwire/_internal/injection.py
index 1ba6091..f3f0d84 100644
--- a/src/diwire/_internal/injection.py
+++ b/src/diwire/_internal/injection.py
@@ -5,6 +5,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from typing import Annotated, Any, get_args, get_origin, get_type_hints
 
+from diwire._internal.callables import called_callable
 from diwire._internal.markers import (
     InjectedMarker,
     is_from_context_annotation,
@@ -141,7 +142,7 @@ class InjectedCallableInspector:
 
         """
         try:
-            return get_type_hints(callable_obj, include_extras=True)
+            return get_type_hints(called_callable(callable_obj), include_extras=True)
         except (AttributeError, NameError, TypeError):
             return {}
 
diff --git a/src/diwire/_internal/resolver_context.py b/src/diwire/_internal/resolver_context.py
index 448b345..8934e06 100644
--- a/src/diwire/_internal/resolver_context.py
+++ b/src/diwire/_internal/resolver_context.py
@@ -8,6 +8,7 @@ from dataclasses import dataclass
 from types import TracebackType
 from typing import TYPE_CHECKING, Any, Literal, TypeVar, cast, overload
 
+from diwire._internal.callables import called_callable
 from diwire._internal.injection import (
     INJECT_CONTEXT_KWARG,
     INJECT_RESOLVER_KWARG,
@@ -523,7 +524,7 @@ class ResolverContext:
         callable_obj: InjectableF,
         invocation: Callable[..., Any],
     ) -> Callable[..., Any]:
-        if inspect.iscoroutinefunction(callable_obj):
+        if inspect.iscoroutinefunction(called_callable(callable_obj)):
 
             @functools.wraps(callable_obj)
             async def _async_injected(*args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 0efc5d64e415a90ed9144603f668e82908fc29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 44/50] fix: a class can be registered under a union written
 with |

---
 src/diwire/_internal/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 444c607..c2c694f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1636,10 +1636,12 @@ class Container:
         if not arguments:
             return {}
 
+        origin_parameters = getattr(origin, "__parameters__", ())
+        if not isinstance(origin_parameters, tuple):
+            # The origin of a union is a class whose attribute is a descriptor.
+            return {}
         origin_typevars = tuple(
-            parameter
-            for parameter in getattr(origin, "__parameters__", ())
-            if isinstance(parameter, TypeVar)
+            parameter for parameter in origin_parameters if isinstance(parameter, TypeVar)
         )
         if len(origin_typevars) != len(arguments):
             return {}
-- 
2.43.0


From f35eabb6511f2f9dc7537d11dbc27ade3162fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:05 +0000
Subject: [PATCH 45/50] fix: providers outside the root scope are reported as
 not registered to their dependents

---
 .../_internal/resolvers/assembly/planner.py      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 2431055..8ce3471 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -1070,14 +1070,14 @@ class ResolverGenerationPlanner:
         raise DIWireDependencyNotRegisteredError(msg)
 
     def _find_registered_dependency_spec(self, dependency: Any) -> ProviderSpec | None:
-        dependency_spec = self._registrations.find_by_type(dependency)
-        if dependency_spec is not None:
-            return dependency_spec
-
-        normalized_dependency = strip_non_component_annotation(dependency)
-        if normalized_dependency is dependency:
-            return None
-        return self._registrations.find_by_type(normalized_dependency)
+        for dependency_key in (dependency, strip_non_component_annotation(dependency)):
+            dependency_spec = self._registrations.find_by_type(dependency_key)
+            # Scopes outside the root scope are never open.
+            if dependency_spec is not None and (
+                dependency_spec.scope.level >= self._root_scope.level
+            ):
+                return dependency_spec
+        return None
 
     def _build_all_slots_by_key(self) -> dict[Any, tuple[int, ...]]:
         slots_by_key: dict[Any, list[int]] = {}
-- 
2.43.0


From 94f93bd760266e250488026300d872436af5cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:34 +0000
Subject: [PATCH 46/50] fix: optional collections count toward the scope an
 injected callable needs

---
 src/diwire/_internal/container.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index c2c694f..5673d88 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2086,11 +2086,8 @@ class Container:
             # Context values need no provider, whatever is registered for their type.
             return self._root_scope.level
         if is_maybe_annotation(dependency):
-            maybe_inner_dependency = strip_non_component_annotation(
-                strip_maybe_annotation(dependency)
-            )
             inferred_level = self._infer_dependency_scope_level(
-                dependency=maybe_inner_dependency,
+                dependency=strip_maybe_annotation(dependency),
                 cache=cache,
                 in_progress=in_progress,
             )
-- 
2.43.0


From a103ca63d5812440e60cea01faab08b25a3bea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:14 +0000
Subject: [PATCH 47/50] fix: pass arguments of injected providers by name

Parameters that inject fills take up positions the visible signature does not
show, so a positional argument after one of them was bound to it.
---
 src/diwire/_internal/resolvers/assembly/planner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 8ce3471..a2e8d1b 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -903,10 +903,15 @@ class ResolverGenerationPlanner:
         if not spec.dependencies:
             return True
 
-        parameters = self._provider_parameters(spec=spec)
-        if parameters is None:
+        provider_callable = self._provider_callable_for_signature(spec=spec)
+        if provider_callable is None:
             return False
 
+        if getattr(provider_callable, INJECT_WRAPPER_MARKER, False):
+            # Injected parameters take up positions the visible signature does not show.
+            provider_callable = provider_callable.__wrapped__
+        parameters = list(inspect.signature(provider_callable).parameters.values())
+
         filled_names = {dependency.parameter.name for dependency in spec.dependencies}
         for unfilled_parameters in self._unfilled_positional_parameters(spec=spec).values():
             filled_names.update(parameter.name for parameter in unfilled_parameters)
-- 
2.43.0


From 1290731e87bf575b77a7045cd5a6849223bbe836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:15 +0000
Subject: [PATCH 48/50] fix: recognise a wrapped asynchronous generator
 provider

---
 src/diwire/_internal/providers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 0296ac5..b3329da 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -664,8 +664,11 @@ class ProviderReturnTypeExtractor:
             generator: Generator provider callable to inspect or validate.
 
         """
+        called_generator = called_callable(generator)
+        if not inspect.isgeneratorfunction(called_generator):
+            called_generator = inspect.unwrap(called_generator)
         return inspect.isasyncgenfunction(
-            called_callable(generator),
+            called_generator,
         ) or self.return_annotation_matches_origins(
             provider=generator,
             expected_origins=(AsyncGenerator,),
-- 
2.43.0


From 23511d1255baffddd13e09a1b9aa84b8b6239413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:22 +0000
Subject: [PATCH 49/50] fix: optional collections are present for direct
 requests and injected functions

---
 src/diwire/_internal/resolvers/assembly/compiler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 79bc72f..96afd08 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -2088,6 +2088,8 @@ def _resolver_resolve_from_context(self: Any, key: Any) -> Any:
 
 
 def _resolver_is_registered_dependency(self: Any, dependency: Any) -> bool:
+    if is_all_annotation(dependency):
+        return True
     runtime = type(self)._runtime
     if dependency in runtime.dep_registered_keys:
         return True
@@ -2194,6 +2196,9 @@ def _resolve_dispatch_fallback_sync(self: Any, dependency: Any) -> Any:
             except DIWireDependencyNotRegisteredError:
                 return None
 
+        if is_all_annotation(inner):
+            return self.resolve(inner)
+
         if not self._is_registered_dependency(inner):
             return None
         try:
@@ -2257,6 +2262,9 @@ def _resolve_dispatch_fallback_async(self: Any, dependency: Any) -> Awaitable[An
                 except DIWireDependencyNotRegisteredError:
                     return None
 
+            if is_all_annotation(inner):
+                return await self.aresolve(inner)
+
             if not self._is_registered_dependency(inner):
                 return None
             try:
-- 
2.43.0


From 30e56bb21d69725c10365ea2ff141722f9fdb3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:40 +0000
Subject: [PATCH 50/50] fix: inject into test methods collected by the pytest
 plugin

---
 .../_internal/integrations/pytest_plugin.py     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 12a5c35..c99e440 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -4,6 +4,7 @@ import functools
 import inspect
 from collections.abc import Callable, Iterator
 from contextlib import suppress
+from types import MethodType
 from typing import Any, cast
 
 import pytest
@@ -67,23 +68,30 @@ def pytest_pycollect_makeitem(
         ``None`` to continue default collection flow.
 
     """
-    if not callable(obj):
+    function = _underlying_function(obj)
+    if not callable(function):
         return None
     if not collector.istestfunction(obj, name):
         return None
 
-    callable_obj = cast("Callable[..., Any]", obj)
+    callable_obj = cast("Callable[..., Any]", function)
     inspection = _INJECTED_CALLABLE_INSPECTOR.inspect_callable(callable_obj)
     if not inspection.injected_parameters:
         return None
 
-    obj_as_any = cast("Any", obj)
+    obj_as_any = cast("Any", function)
     obj_as_any.__dict__[_DIWIRE_INJECTED_PARAMETERS_ATTR] = inspection.injected_parameters
     obj_as_any.__dict__[_DIWIRE_ORIGINAL_SIGNATURE_ATTR] = inspection.signature
     obj_as_any.__signature__ = inspection.public_signature
     return None
 
 
+def _underlying_function(obj: object) -> object:
+    if isinstance(obj, (classmethod, staticmethod, MethodType)):
+        return obj.__func__
+    return obj
+
+
 @pytest.hookimpl(hookwrapper=True, tryfirst=True)
 def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
     """Wrap test function execution to resolve ``Injected[...]`` parameters.
@@ -104,7 +112,8 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
 
     """
     original_callable = cast("Callable[..., Any]", pyfuncitem.obj)
-    original_callable_as_any = cast("Any", original_callable)
+    # methods do not take attributes: the signature belongs to their function
+    original_callable_as_any = cast("Any", _underlying_function(original_callable))
     injected_parameters = cast(
         "tuple[InjectedParameter, ...] | None",
         getattr(original_callable_as_any, _DIWIRE_INJECTED_PARAMETERS_ATTR, None),
-- 
2.43.0

