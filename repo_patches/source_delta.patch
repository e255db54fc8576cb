From 7d566411d47216d9fb2315e6a5931c5b32ce7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 01/50] fix: reject all out-of-range values of 8/16-bit integer
 parameters and return values

Several handlers parse into a wider int and then checked only one bound (or
the wrong one), so negative values were silently truncated.
---
 pybindgen/typehandlers/inttype.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index d8f953e..4cf70c4 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -256,7 +256,7 @@ class UInt16Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xffff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xffff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -297,7 +297,7 @@ class UInt16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xffff' % name,
+        wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -336,7 +336,7 @@ class Int16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7fff' % name,
+        wrapper.before_call.write_error_check('%s > 0x7fff || %s < -0x8000' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -375,7 +375,7 @@ class UInt8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xff' % name,
+        wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -411,7 +411,7 @@ class UInt8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -432,7 +432,7 @@ class Int8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7f' % name,
+        wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -466,7 +466,7 @@ class Int8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 128 || %s < -127' % (tmp_var, tmp_var),
+        wrapper.after_call.write_error_check('%s > 127 || %s < -128' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
-- 
2.43.0


From 131600fff499ac4a5e7bb8db48d88fe46bcf1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 02/50] fix: unsigned int* array parameters emitted an
 unexpanded template and a nonexistent API

---
 pybindgen/typehandlers/inttype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 4cf70c4..64faf70 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -91,10 +91,10 @@ class UnsignedIntPtrParam(PointerParameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyNumber_Check(%(elem)s)',
+                        '!PyNumber_Check(%(elem)s)' % vars(),
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i ints / longs");'
                         % (self.name, self.array_length))
-                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedInt(%(elem)s);" % vars())
+                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedLong(%(elem)s);" % vars())
 
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-- 
2.43.0


From 1df679a6adde2902c29778e337d90d45d80604ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 03/50] fix: free_after_copy return values crashed the
 generator outside plain functions

The cleanup comment referenced wrapper.function_name, which only Function has.
---
 pybindgen/cppclass.py                | 2 +-
 pybindgen/typehandlers/stringtype.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9364adc..cb64dfe 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3788,7 +3788,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("delete retval;")
-            wrapper.after_call.add_cleanup_code("// free_after_copy for %s* %ss" % (self.cpp_class.name,wrapper.function_name))
+            wrapper.after_call.add_cleanup_code("// free_after_copy for %s* %ss" % (self.cpp_class.name, getattr(wrapper, 'function_name', '')))
 
 
     def convert_python_to_c(self, wrapper):
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index d98a42a..5cb4454 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -223,7 +223,7 @@ class CStringReturn(PointerReturnValue):
         wrapper.build_params.add_parameter("s", [self.value])
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
-            wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
+            wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, getattr(wrapper, 'function_name', '')))
 
 
 class StdStringReturn(ReturnValue):
-- 
2.43.0


From 9ab00a14cc820e64d0a33fe0bcbd5f93d129b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 04/50] fix: out/inout class pointers of virtual methods were
 passed to python twice and over-released

The temporary wrapper was added with 'O' plus a Py_DECREF cleanup and then
added again with 'N', which gives away the same reference.
---
 pybindgen/cppclass.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cb64dfe..ce7b07b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3515,6 +3515,13 @@ class CppClassPtrParameter(CppClassParameterBase):
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        ## out/inout pointers without ownership transfer are passed to
+        ## python via a "temporary wrapper", see below; in that case the
+        ## parameter and its cleanup are added by write_create_new_wrapper()
+        temporary_wrapper = (not self.transfer_ownership
+                             and not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy)
+                             and self.direction != Parameter.DIRECTION_IN)
+
         def write_create_new_wrapper():
             """Code path that creates a new wrapper for the parameter"""
 
@@ -3627,7 +3634,8 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                                            "%s->obj" % py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
+            if not temporary_wrapper:
+                wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -3673,7 +3681,8 @@ class CppClassPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
-            wrapper.build_params.add_parameter("N", [py_name])
+            if not temporary_wrapper:
+                wrapper.build_params.add_parameter("N", [py_name])
 
 
 
-- 
2.43.0


From 1fb54c9553c3834d1c2e56c7b000b8bda837f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 05/50] fix: invalid custodian/ward policies raised NameError
 instead of TypeConfigurationError

---
 pybindgen/cppmethod.py | 2 +-
 pybindgen/function.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 06263fa..55d7c23 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -7,7 +7,7 @@ import traceback
 from copy import copy
 
 from pybindgen.typehandlers.base import ForwardWrapperBase, ReverseWrapperBase, \
-    join_ctype_and_name, CodeGenerationError
+    join_ctype_and_name, CodeGenerationError, TypeConfigurationError
 from pybindgen.typehandlers.base import ReturnValue, Parameter
 from pybindgen.typehandlers import codesink
 from pybindgen import overloading
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 6d4069b..89cc41c 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -13,7 +13,7 @@ else:
 
 from copy import copy
 
-from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue
+from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue, TypeConfigurationError
 from pybindgen.typehandlers import codesink
 from pybindgen.cppexception import CppException
 
-- 
2.43.0


From 3ef678de98611c55fdc641fa3a2fd758307331c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 06/50] fix: return_internal_reference in functions and static
 methods referred to a nonexistent self

---
 pybindgen/cppclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ce7b07b..7f43413 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3905,6 +3905,9 @@ def _get_custodian_or_ward(wrapper, num):
         assert wrapper.return_value.py_name is not None
         return "((PyObject *) %s)" % wrapper.return_value.py_name
     elif num == 0:
+        if getattr(wrapper, 'is_static', False) or getattr(wrapper, 'self_parameter_pystruct', '') is None:
+            raise TypeConfigurationError("custodian/ward policy refers to self, "
+                                         "but the wrapper is not bound to an instance")
         return "((PyObject *) self)"
     else:
         assert wrapper.parameters[num-1].py_name is not None
-- 
2.43.0


From 92dc2dcb072ad88a6d2abc3239cabd1477cfba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 07/50] fix: wrappers with unblock_threads used the Python API
 without the GIL after the C++ call

Exception handlers, constructor error paths, the registration of the python
object of helper classes and the protected-method check ran between
PyEval_SaveThread and PyEval_RestoreThread, and returned without restoring.
---
 pybindgen/cppmethod.py         |  5 +++++
 pybindgen/function.py          |  1 +
 pybindgen/typehandlers/base.py | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 55d7c23..fdf3704 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -301,6 +301,7 @@ class CppMethod(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_thread(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
@@ -665,6 +666,7 @@ class CppConstructor(ForwardWrapperBase):
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params),
                                          class_.helper_class.name)
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+            self.write_restore_thread(self.before_call)
             self.before_call.write_code('((%s*) self->obj)->set_pyobj((PyObject *)self);'
                                         % class_.helper_class.name)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params),
@@ -680,6 +682,7 @@ class CppConstructor(ForwardWrapperBase):
                     raise CodeGenerationError("private/protected constructor")
                 class_.get_construct_name()
             except CodeGenerationError:
+                self.write_restore_thread(self.before_call)
                 self.before_call.write_code('PyErr_SetString(PyExc_TypeError, "class \'%s\' '
                                             'cannot be constructed");' % class_.name)
                 self.before_call.write_code('return -1;')
@@ -696,6 +699,7 @@ class CppConstructor(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_thread(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return -1;')
@@ -944,6 +948,7 @@ class CppVirtualMethodParentCaller(CppMethod):
         method = '%s->%s__parent_caller' % (helper, self.method_name)
         self.before_call.write_error_check(
             "%s == NULL" % helper,
+            self.get_restore_thread_code() +
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
 
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 89cc41c..325e3b4 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -214,6 +214,7 @@ class Function(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_thread(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 528d15c..cc4327a 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -821,6 +821,24 @@ class ForwardWrapperBase(object):
         """
         raise NotImplementedError
 
+    def get_restore_thread_code(self):
+        """
+        Returns code that takes the GIL back, in case unblock_threads made
+        the wrapper release it for the C call.  To be used by generate_call()
+        implementations before any code that needs the Python API.
+        """
+        if not self.unblock_threads:
+            return ''
+        return ("if (%s) {\n"
+                "    PyEval_RestoreThread(%s);\n"
+                "    %s = NULL;\n"
+                "}\n" % ((self._py_thread_state,)*3))
+
+    def write_restore_thread(self, code_block):
+        "Writes to code_block the code returned by get_restore_thread_code()"
+        if self.unblock_threads:
+            code_block.write_code(self.get_restore_thread_code())
+
     def _before_call_hook(self):
         """
         Optional hook that lets subclasses add code after all
@@ -864,6 +882,7 @@ class ForwardWrapperBase(object):
 
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
+            self._py_thread_state = py_thread_state
             self.after_call.write_code(
                 "\nif (%s)\n"
                 "     PyEval_RestoreThread(%s);\n" % (py_thread_state, py_thread_state))
-- 
2.43.0


From f5685d687a762a13a5a17b74a448ff4b0c54ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 08/50] fix: passing None for a null_ok parameter with
 transfer_ownership wrote into Py_None

---
 pybindgen/cppclass.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7f43413..5648e41 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3480,9 +3480,12 @@ class CppClassPtrParameter(CppClassParameterBase):
         wrapper.call_params.append(value)
 
         if self.transfer_ownership:
+            given = self.py_name
+            if self.null_ok and not self.take_value_from_python_self:
+                given = "%s && (PyObject *) %s != Py_None" % (self.py_name, self.py_name)
             if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
-                wrapper.after_call.write_code('if (%s) {' % self.py_name)
+                wrapper.after_call.write_code('if (%s) {' % given)
                 wrapper.after_call.indent()
                 if self.cpp_class.memory_policy is not None:
                     self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
@@ -3496,7 +3499,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % self.py_name)
+                wrapper.before_call.write_code("if (%s) {" % given)
                 wrapper.before_call.indent()
                 self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
                 wrapper.before_call.unindent()
-- 
2.43.0


From 81bb09236e7a9c30b4d303f5c77e88d7e88299d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 09/50] fix: cloned wrappers (inherited methods) dropped throw,
 deprecated, unblock_threads and custodian options

---
 pybindgen/cppmethod.py | 13 +++++++++++--
 pybindgen/function.py  |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index fdf3704..6a42f96 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -220,8 +220,12 @@ class CppMethod(ForwardWrapperBase):
                          is_pure_virtual=self.is_pure_virtual,
                          is_const=self.is_const,
                          visibility=self.visibility,
-                         custom_name=self.custom_name)
+                         custom_name=self.custom_name,
+                         unblock_threads=self.unblock_threads,
+                         deprecated=self.deprecated,
+                         throw=self.throw)
         meth._class = self._class
+        meth.custodians_and_wards = list(self.custodians_and_wards)
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
         meth.wrapper_actual_name = self.wrapper_actual_name
@@ -626,8 +630,13 @@ class CppConstructor(ForwardWrapperBase):
         returned constructor wrapper clone contains copies of all
         parameters, so they can be modified at will.
         """
-        meth = type(self)([copy(param) for param in self.parameters])
+        meth = type(self)([copy(param) for param in self.parameters],
+                          unblock_threads=self.unblock_threads,
+                          visibility=self.visibility,
+                          deprecated=self.deprecated,
+                          throw=self.throw)
         meth._class = self._class
+        meth.custodians_and_wards = list(self.custodians_and_wards)
         meth.wrapper_base_name = self.wrapper_base_name
         meth.wrapper_actual_name = self.wrapper_actual_name
         return meth
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 325e3b4..bfecce5 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -118,7 +118,11 @@ class Function(ForwardWrapperBase):
                         self.return_value,
                         [copy(param) for param in self.parameters],
                         docstring=self.docstring,
-                        custom_name=self.custom_name)
+                        custom_name=self.custom_name,
+                        unblock_threads=self.unblock_threads,
+                        template_parameters=self.template_parameters,
+                        deprecated=self.deprecated,
+                        foreign_cpp_namespace=self.foreign_cpp_namespace)
         func._module = self._module
         func.wrapper_base_name = self.wrapper_base_name
         func.wrapper_actual_name = self.wrapper_actual_name
-- 
2.43.0


From 6c15fb5fa3de1b81c7d38d33f7a23e9d9e0e1f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 10/50] fix: sequence item/slice assignment leaked the wrapped
 method's result when it was not an integer

---
 pybindgen/pytypeobject.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index e045cd2..55e5e03 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -427,6 +427,7 @@ static int
 #else
     } else if (PyInt_Check(result) == 0) {
 #endif
+        Py_DECREF(result);
         PyErr_SetString(PyExc_IndexError, "Error trying to set value in container -- wrapped method should return integer status.");
         return -1;
     } else {
@@ -458,6 +459,7 @@ static int
         PyErr_SetString(PyExc_RuntimeError, "Unknown error trying to set slice in container.");
         return -1;
     } else if (PyInt_Check(result) == 0) {
+        Py_DECREF(result);
         PyErr_SetString(PyExc_RuntimeError, "Error trying to set slice in container -- wrapped method should return integer status.");
         return -1;
     } else {
-- 
2.43.0


From 13d464d861e2689c14076f2e4f9e8e6b393e0869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 11/50] fix: custom function wrapper without a body recursed
 without end

---
 pybindgen/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/function.py b/pybindgen/function.py
index bfecce5..af3288d 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -347,7 +347,7 @@ class CustomFunctionWrapper(Function):
         if self.wrapper_body is not None:
             code_sink.writeln(self.wrapper_body)
         else:
-            self.generate_declaration(code_sink, extra_wrapper_parameters=extra_wrapper_params)
+            code_sink.writeln('%s %s(%s);' % (self.wrapper_return, self.wrapper_actual_name, ', '.join(self.wrapper_args)))
 
         #return "PyObject * %s (PyObject *args, PyObject *kwargs, PyObject **return_exception)" % self.wrapper_actual_name
 
-- 
2.43.0


From 779e8bac313d8ca192ccbabc4349399067396aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 12/50] fix: a NULL pointer return value skipped the wrapper's
 cleanup actions

---
 pybindgen/cppclass.py               | 11 +++++++----
 pybindgen/typehandlers/smart_ptr.py | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5648e41..f6e1c50 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3779,10 +3779,13 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
             self, wrapper.declarations, wrapper.after_call, self.value)
 
         # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
+        wrapper.after_call.write_code("if (!(%s)) {" % value)
+        wrapper.after_call.indent()
+        wrapper.after_call.write_cleanup()
+        wrapper.after_call.write_code("Py_INCREF(Py_None);")
+        wrapper.after_call.write_code("return Py_None;")
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c0e661b..3a1fa46 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -331,10 +331,13 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
             self, wrapper.declarations, wrapper.after_call, self.value)
         
         # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
+        wrapper.after_call.write_code("if (!(%s)) {" % value)
+        wrapper.after_call.indent()
+        wrapper.after_call.write_cleanup()
+        wrapper.after_call.write_code("Py_INCREF(Py_None);")
+        wrapper.after_call.write_code("return Py_None;")
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
-- 
2.43.0


From 47cdaae1e4973135be0c7882e239bd584ccb4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 13/50] fix: custom function wrapper declarations lacked the
 self parameter the dispatcher passes

---
 pybindgen/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/function.py b/pybindgen/function.py
index af3288d..795463d 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -338,7 +338,7 @@ class CustomFunctionWrapper(Function):
         self.wrapper_actual_name = wrapper_name
         self.meth_flags = list(flags)
         self.wrapper_body = wrapper_body
-        self.wrapper_args = ["PyObject *args", "PyObject *kwargs", "PyObject **return_exception"]
+        self.wrapper_args = ["PyObject *PYBINDGEN_UNUSED(dummy)", "PyObject *args", "PyObject *kwargs", "PyObject **return_exception"]
         self.wrapper_return = "PyObject *"
 
 
-- 
2.43.0


From 68a70ccf533d27ae86f644ed1bcf30a628205028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 14/50] fix: overloads with different method flags failed with
 AttributeError when no error handler was set

---
 pybindgen/overloading.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index dc7bcef..52891b8 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -5,8 +5,6 @@ from pybindgen.typehandlers.base import TypeConfigurationError, CodeGenerationEr
 from pybindgen.typehandlers.base import ForwardWrapperBase
 from pybindgen.typehandlers.codesink import NullCodeSink
 from . import utils
-from . import settings
-import traceback
 import sys
 
 PY3 = (sys.version_info[0] >= 3)
@@ -44,7 +42,7 @@ def vector_counter(vec):
             else:
                 break
         else:
-            raise StopIteration
+            return
         yield list(values)
 
 class OverloadedWrapper(object):
@@ -105,10 +103,8 @@ class OverloadedWrapper(object):
                     wrapper_flags = utils.call_with_error_handling(
                         wrapper.get_py_method_def_flags, args=(), kwargs={}, wrapper=wrapper)
                 except utils.SkipWrapper:
-                    _, ex, tb = sys.exc_info()
                     modified = True
                     self.wrappers.remove(wrapper)
-                    settings.error_handler.handle_error(wrapper, ex, tb)
                     break
 
                 wrapper_flags = set(wrapper_flags)
@@ -118,14 +114,20 @@ class OverloadedWrapper(object):
                     if wrapper_flags != existing_flags:
                         modified = True
                         self.wrappers.remove(wrapper)
-                        tb = traceback.extract_stack()
-                        ex = utils.SkipWrapper(
-                            "overloading: removed the wrapper %s because its"
-                            " method flags are different from existing ones."
-                            % (wrapper,))
-                        settings.error_handler.handle_error(wrapper, ex, tb)
+                        self._report_flags_mismatch(wrapper)
                         break
 
+    def _report_flags_mismatch(self, wrapper):
+        def fail():
+            raise TypeConfigurationError(
+                "overloading: removed the wrapper %s because its"
+                " method flags are different from existing ones."
+                % (wrapper,))
+        try:
+            utils.call_with_error_handling(fail, (), {}, wrapper)
+        except utils.SkipWrapper:
+            pass
+
     def _compute_all_wrappers(self):
         """
         Computes all the wrappers that should be generated; this
-- 
2.43.0


From 22370bb48607ad9b234d1cb22a748fd25b5fef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 15/50] fix: declarations of custom wrappers ignored the method
 flags the dispatcher follows

---
 pybindgen/cppmethod.py | 7 ++++++-
 pybindgen/function.py  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 6a42f96..9290143 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1167,7 +1167,12 @@ class CustomCppMethodWrapper(CppMethod):
     def generate(self, code_sink, dummy_wrapper_name=None, extra_wrapper_params=()):
         assert extra_wrapper_params == ["PyObject **return_exception"]
 
-        self.wrapper_args = ["%s *self" % self.class_.pystruct, "PyObject *args", "PyObject *kwargs", "PyObject **return_exception"]
+        self.wrapper_args = ["%s *self" % self.class_.pystruct]
+        if 'METH_VARARGS' in self.meth_flags:
+            self.wrapper_args.append("PyObject *args")
+        if 'METH_KEYWORDS' in self.meth_flags:
+            self.wrapper_args.append("PyObject *kwargs")
+        self.wrapper_args.append("PyObject **return_exception")
         self.wrapper_return = "PyObject *"
         if self.wrapper_body is not None:
             code_sink.writeln(self.wrapper_body)
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 795463d..ce6d4ac 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -338,7 +338,12 @@ class CustomFunctionWrapper(Function):
         self.wrapper_actual_name = wrapper_name
         self.meth_flags = list(flags)
         self.wrapper_body = wrapper_body
-        self.wrapper_args = ["PyObject *PYBINDGEN_UNUSED(dummy)", "PyObject *args", "PyObject *kwargs", "PyObject **return_exception"]
+        self.wrapper_args = ["PyObject *PYBINDGEN_UNUSED(dummy)"]
+        if 'METH_VARARGS' in self.meth_flags:
+            self.wrapper_args.append("PyObject *args")
+        if 'METH_KEYWORDS' in self.meth_flags:
+            self.wrapper_args.append("PyObject *kwargs")
+        self.wrapper_args.append("PyObject **return_exception")
         self.wrapper_return = "PyObject *"
 
 
-- 
2.43.0


From fe0ddf7b624db92bd2ae07b248a51e24815c4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 16/50] fix: custodian/ward policies naming an unwrapped value
 raised AttributeError, IndexError or AssertionError

---
 pybindgen/cppclass.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f6e1c50..4b344c3 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3907,17 +3907,22 @@ def _add_ward(code_block, custodian, ward):
 
 
 def _get_custodian_or_ward(wrapper, num):
-    if num == -1:
-        assert wrapper.return_value.py_name is not None
-        return "((PyObject *) %s)" % wrapper.return_value.py_name
-    elif num == 0:
+    if num == 0:
         if getattr(wrapper, 'is_static', False) or getattr(wrapper, 'self_parameter_pystruct', '') is None:
             raise TypeConfigurationError("custodian/ward policy refers to self, "
                                          "but the wrapper is not bound to an instance")
         return "((PyObject *) self)"
+    if num == -1:
+        value, description = wrapper.return_value, "the return value"
     else:
-        assert wrapper.parameters[num-1].py_name is not None
-        return "((PyObject *) %s)" % wrapper.parameters[num-1].py_name
+        if num < 1 or num > len(wrapper.parameters):
+            raise TypeConfigurationError("custodian/ward policy refers to a nonexistent parameter: %r" % (num,))
+        value, description = wrapper.parameters[num-1], "parameter %i" % num
+    py_name = getattr(value, 'py_name', None)
+    if py_name is None:
+        raise TypeConfigurationError("custodian/ward policy refers to %s, "
+                                     "which is not a wrapped object at that point" % description)
+    return "((PyObject *) %s)" % py_name
 
 
 def implement_parameter_custodians_precall(wrapper):
-- 
2.43.0


From 6a202a4bc70c64d9a82db8aeb53dc4dd10121766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 17/50] fix: output parameters of constructors raised
 AssertionError instead of TypeConfigurationError

---
 pybindgen/typehandlers/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index cc4327a..dee6552 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -943,8 +943,8 @@ class ForwardWrapperBase(object):
         ## convert the return value(s)
         if self.return_value is None and not self.HAVE_RETURN_VALUE:
 
-            assert self.build_params.get_parameters() == ['""'], \
-                   "this wrapper is not supposed to return values"
+            if self.build_params.get_parameters() != ['""']:
+                raise TypeConfigurationError("this wrapper is not supposed to return values")
             self._before_return_hook()
             self.after_call.write_cleanup()
 
-- 
2.43.0


From 87b50bf65b849859eb142789467624f2202f00be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 18/50] fix: a skipped virtual method without a return value
 raised TypeError

---
 pybindgen/cppmethod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 9290143..8693db7 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -488,6 +488,8 @@ class DummyReturnValue(ReturnValue):
         parameter.  In case it's a tuple, it is assumed to be a retval
         spec (\\*args, \\*\\*kwargs).
         """
+        if arg is None:
+            arg = 'void'
         if isinstance(arg, ReturnValue):
             super(DummyReturnValue, self).__init__(arg.ctype)
         else:
-- 
2.43.0


From e6a20e3da6939d842840d9c2c8f5149bff203a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 19/50] fix: functions as constructors ignored unblock_threads
 and asserted on subclassable classes

---
 pybindgen/cppmethod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 8693db7..4136a86 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -820,7 +820,7 @@ class CppFunctionAsConstructor(CppConstructor):
             unblock_threads = settings.unblock_threads
 
         parameters = [utils.eval_param(param, self) for param in parameters]
-        super(CppFunctionAsConstructor, self).__init__(parameters)
+        super(CppFunctionAsConstructor, self).__init__(parameters, unblock_threads=unblock_threads)
         self.c_function_name = c_function_name
         self.function_return_value = return_value
 
@@ -829,7 +829,8 @@ class CppFunctionAsConstructor(CppConstructor):
         if class_ is None:
             class_ = self._class
         #assert isinstance(class_, CppClass)
-        assert class_.helper_class is None
+        if class_.helper_class is not None:
+            raise TypeConfigurationError("a function cannot be the constructor of a class that can be subclassed from Python")
         ## FIXME: check caller_owns_return in self.function_return_value
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
-- 
2.43.0


From a28c1c61ceb0e8c9b5d6a72b22ca7ab265821dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 20/50] fix: refusing to construct an abstract class skipped
 the wrapper's cleanup actions

---
 pybindgen/cppmethod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 4136a86..d4fca66 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -694,6 +694,7 @@ class CppConstructor(ForwardWrapperBase):
                 class_.get_construct_name()
             except CodeGenerationError:
                 self.write_restore_thread(self.before_call)
+                self.before_call.write_cleanup()
                 self.before_call.write_code('PyErr_SetString(PyExc_TypeError, "class \'%s\' '
                                             'cannot be constructed");' % class_.name)
                 self.before_call.write_code('return -1;')
-- 
2.43.0


From 76eef7d55f829083d399fe83d371f16571771f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 21/50] fix: output objects leaked when the wrapper returned
 before building its result

---
 pybindgen/container.py              | 6 ++++--
 pybindgen/cppclass.py               | 7 ++++---
 pybindgen/typehandlers/base.py      | 3 +++
 pybindgen/typehandlers/floattype.py | 3 ++-
 pybindgen/typehandlers/inttype.py   | 3 ++-
 5 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a7966db..d4c7f95 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -731,7 +731,8 @@ class ContainerRefParameter(ContainerParameterBase):
                 "%s = PyObject_New(%s, %s);" %
                 (py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
             wrapper.after_call.write_code("%s->obj = new %s(%s);" % (py_name, self.container_type.full_name, container_tmp_var))
-            wrapper.build_params.add_parameter("N", [py_name])
+            cleanup = wrapper.after_call.add_cleanup_code("Py_DECREF(%s);" % (py_name,))
+            wrapper.build_params.add_parameter("N", [py_name], cancels_cleanup=cleanup)
 
     def convert_c_to_python(self, wrapper):
         '''Write some code before calling the Python method.'''
@@ -805,7 +806,8 @@ class ContainerPtrParameter(ContainerParameterBase):
 
             wrapper.after_call.write_code("%s->obj = %s;" % (py_name, container_tmp_var))
 
-            wrapper.build_params.add_parameter("N", [py_name])
+            cleanup = wrapper.after_call.add_cleanup_code("Py_DECREF(%s);" % (py_name,))
+            wrapper.build_params.add_parameter("N", [py_name], cancels_cleanup=cleanup)
 
         else:
             raise NotSupportedError("inout not supported for container*")
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 4b344c3..6f46fd7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3132,9 +3132,9 @@ class CppClassRefParameter(CppClassParameterBase):
 
             self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
             if self.cpp_class.allow_subclassing:
-                wrapper.after_call.write_code(
+                wrapper.before_call.write_code(
                     "%s->inst_dict = NULL;" % (self.py_name,))
-            wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
+            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
 
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
@@ -3144,8 +3144,9 @@ class CppClassRefParameter(CppClassParameterBase):
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              '')
+            cleanup = wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % (self.py_name,))
             wrapper.call_params.append('*%s->obj' % (self.py_name,))
-            wrapper.build_params.add_parameter("N", [self.py_name])
+            wrapper.build_params.add_parameter("N", [self.py_name], cancels_cleanup=cleanup)
 
         ## well, personally I think inout here doesn't make much sense
         ## (it's just plain confusing), but might as well support it..
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index dee6552..f3d444a 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -970,6 +970,9 @@ class ForwardWrapperBase(object):
                     params[0] = "(char *) " + params[0]
                     self.after_call.write_code('py_retval = Py_BuildValue(%s);' %
                                                (', '.join(params),))
+                    for cleanup in self.build_params.get_cleanups():
+                        if cleanup is not None:
+                            cleanup.cancel()
 
             ## cleanup and return
             self.after_call.write_cleanup()
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index d51711f..5c90dc4 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -100,7 +100,8 @@ class FloatPtrParam(Parameter):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
 
-                wrapper.build_params.add_parameter("N", [py_list])
+                cleanup = wrapper.after_call.add_cleanup_code("Py_DECREF(%s);" % (py_list,))
+                wrapper.build_params.add_parameter("N", [py_list], cancels_cleanup=cleanup)
 
 
 class FloatRefParam(Parameter):
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 64faf70..134c517 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -110,7 +110,8 @@ class UnsignedIntPtrParam(PointerParameter):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
 
-                wrapper.build_params.add_parameter("N", [py_list])
+                cleanup = wrapper.after_call.add_cleanup_code("Py_DECREF(%s);" % (py_list,))
+                wrapper.build_params.add_parameter("N", [py_list], cancels_cleanup=cleanup)
 
 class IntReturn(ReturnValue):
 
-- 
2.43.0


From 2a00c4cb4156d6acc19e1c23665915767c10be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 22/50] fix: int* parameters with a NULL default emitted code
 that does not compile

---
 pybindgen/typehandlers/inttype.py | 37 ++++++++++++++-----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 134c517..9c4da8a 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -164,35 +164,32 @@ class IntPtrParam(PointerParameter):
             wrapper.parse_params.add_parameter("i", [self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        #import sys
-        #sys.stderr.write("***************"  +self.default_value + "\n")
-        optional = bool(self.default_value in ['NULL', '0'])
+        optional = self.default_value in ['NULL', '0'] and bool(self.direction & self.DIRECTION_IN)
         if optional:
             name_int = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name+"_int")
             name_obj = wrapper.declarations.declare_variable("PyObject*", self.name+"_obj", "NULL")
-            name_ptr = wrapper.declarations.declare_variable(self.ctype_no_const, self.name+"_ptr")
+            name_ptr = wrapper.declarations.declare_variable(self.ctype_no_const, self.name+"_ptr", "NULL")
             wrapper.call_params.append(name_ptr)
-            if self.direction & self.DIRECTION_IN:
-                wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
-                wrapper.before_call.write_code(
-                    "if (%(name_obj)s) {\n"
-                    "    %(name_int)s = PyInt_AsLong(%(name_obj)s);\n"
-                    "    %(name_ptr)s = &%(name_obj)s;\n"
-                    "} else {\n"
-                    "    %(name_ptr)s = NULL;\n"
-                    "}\n"
-                    % vars())
-                wrapper.before_call.write_error_check("PyErr_Occurred()")
+            wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
+            wrapper.before_call.write_error_check(
+                '%(name_obj)s && !PyArg_Parse(%(name_obj)s, (char *) "i", &%(name_int)s)' % vars())
+            wrapper.before_call.write_code(
+                "if (%(name_obj)s) {\n"
+                "    %(name_ptr)s = &%(name_int)s;\n"
+                "}\n"
+                % vars())
             if self.direction & self.DIRECTION_OUT:
+                name_out = wrapper.declarations.declare_variable("PyObject*", self.name+"_out")
                 wrapper.after_call.write_code(
-                    "if (%(name_obj)s) {\n"
-                    "    %(name_obj)s = PyInt_FromLong(%(name_int)s);\n"
+                    "if (%(name_ptr)s) {\n"
+                    "    %(name_out)s = PyLong_FromLong(%(name_int)s);\n"
                     "} else {\n"
-                    "    %(name_obj)s = Py_None;\n"
-                    "    Py_INCREC(%(name_obj)s);\n"
+                    "    %(name_out)s = Py_None;\n"
+                    "    Py_INCREF(%(name_out)s);\n"
                     "}\n"
                     % vars())
-                wrapper.build_params.add_parameter("N", [name_obj])
+                cleanup = wrapper.after_call.add_cleanup_code("Py_DECREF(%s);" % (name_out,))
+                wrapper.build_params.add_parameter("N", [name_out], cancels_cleanup=cleanup)
         else:
             name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
             wrapper.call_params.append('&'+name)
-- 
2.43.0


From 636305192abe0ac91d520acf3ba86e58b8e2ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 23/50] fix: virtual methods with non-const reference out
 parameters parsed into the value instead of its address

---
 pybindgen/typehandlers/doubletype.py |  2 +-
 pybindgen/typehandlers/floattype.py  |  4 ++--
 pybindgen/typehandlers/inttype.py    | 12 ++++++------
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 6c589ed..74cc912 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -68,7 +68,7 @@ class DoubleRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('d', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("d", [self.value], self.name)
+            wrapper.parse_params.add_parameter("d", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index 5c90dc4..2957ca0 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -82,7 +82,7 @@ class FloatPtrParam(Parameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyFloat_Check(element)',
+                        '!PyFloat_Check(%(elem)s)' % vars(),
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i floats");'
                         % (self.name, self.array_length))
                 wrapper.before_call.write_code("%(name)s[%(idx)s] = (float) PyFloat_AsDouble(%(elem)s);" % vars())
@@ -114,7 +114,7 @@ class FloatRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('f', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("f", [self.value], self.name)
+            wrapper.parse_params.add_parameter("f", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 9c4da8a..f668e3c 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -210,7 +210,7 @@ class IntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('i', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("i", [self.value], self.name)
+            wrapper.parse_params.add_parameter("i", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -231,7 +231,7 @@ class UnsignedIntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('I', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("I", [self.value], self.name)
+            wrapper.parse_params.add_parameter("I", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -309,7 +309,7 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", [self.value], self.name)
+            wrapper.parse_params.add_parameter("H", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -349,7 +349,7 @@ class Int16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('h', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("h", [self.value], self.name)
+            wrapper.parse_params.add_parameter("h", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -387,7 +387,7 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            wrapper.parse_params.add_parameter("B", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -444,7 +444,7 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            wrapper.parse_params.add_parameter("b", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
-- 
2.43.0


From 7bfb38f393b173c03bdca7797b08a68fe1f78d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 24/50] fix: 8/16-bit integer pointer/reference parameters
 silently wrapped out-of-range values

---
 pybindgen/typehandlers/inttype.py | 44 ++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index f668e3c..562bd29 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -10,6 +10,26 @@ from .base import ReturnValue, Parameter, PointerParameter, PointerReturnValue,
      ReverseWrapperBase, ForwardWrapperBase, TypeConfigurationError, NotSupportedError
 
 
+def _parse_checked_int(wrapper, name, target, minimum, maximum):
+    """Parse a python integer into `target', a C lvalue of a type
+    narrower than int, refusing values outside [minimum, maximum]."""
+    tmp = wrapper.declarations.declare_variable("int", name + "_int")
+    wrapper.parse_params.add_parameter('i', ['&'+tmp], name)
+    out_of_range = '%s > %i || %s < %i' % (tmp, maximum, tmp, minimum)
+    set_error = 'PyErr_SetString(PyExc_ValueError, "Out of range");'
+    if isinstance(wrapper, ReverseWrapperBase):
+        # C++ callers cannot receive a python exception
+        wrapper.after_call.write_code("if (%s) {\n"
+                                      "    %s\n"
+                                      "    PyErr_Print();\n"
+                                      "} else {\n"
+                                      "    %s = %s;\n"
+                                      "}" % (out_of_range, set_error, target, tmp))
+    else:
+        wrapper.before_call.write_error_check(out_of_range, set_error)
+        wrapper.before_call.write_code("%s = %s;" % (target, tmp))
+
+
 class IntParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
@@ -309,13 +329,13 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", ["&"+self.value], self.name)
+            _parse_checked_int(wrapper, self.name, self.value, 0, 0xffff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xffff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("H", [name])
 
@@ -387,13 +407,13 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", ["&"+self.value], self.name)
+            _parse_checked_int(wrapper, self.name, self.value, 0, 0xff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -444,13 +464,13 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", ["&"+self.value], self.name)
+            _parse_checked_int(wrapper, self.name, self.value, -0x80, 0x7f)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            _parse_checked_int(wrapper, self.name, name, -0x80, 0x7f)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -693,13 +713,13 @@ class Int8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            _parse_checked_int(wrapper, self.name, '*'+self.value, -0x80, 0x7f)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('int8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            _parse_checked_int(wrapper, self.name, name, -0x80, 0x7f)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -722,13 +742,13 @@ class UInt8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            _parse_checked_int(wrapper, self.name, '*'+self.value, 0, 0xff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('uint8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -750,12 +770,12 @@ class UnsignedInt16PtrParam(PointerParameter):
             wrapper.build_params.add_parameter('H', ['*'+self.value])
 
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter('H', [self.value], self.name)
+            _parse_checked_int(wrapper, self.name, '*'+self.value, 0, 0xffff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xffff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter('H', [name])
-- 
2.43.0


From dd3f491acfa84235efcdeaac33b92c4fe18e940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 25/50] fix: sequence slots passed Py_ssize_t values for int
 format units

---
 pybindgen/pytypeobject.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index 55e5e03..3c44a92 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -354,7 +354,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(l)", (long) py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
@@ -370,7 +370,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(l)", (long) py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (PyErr_ExceptionMatches(PyExc_IndexError) ||
@@ -394,7 +394,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(ii)", py_i1, py_i2);
+    args = Py_BuildValue("(ll)", (long) py_i1, (long) py_i2);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (PyErr_ExceptionMatches(PyExc_IndexError) ||
@@ -416,7 +416,7 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iO)", py_i, py_val);
+    args = Py_BuildValue("(lO)", (long) py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
@@ -452,7 +452,7 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iiO)", py_i1, py_i2, py_vals);
+    args = Py_BuildValue("(llO)", (long) py_i1, (long) py_i2, py_vals);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
@@ -527,7 +527,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(l)", (long) py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
-- 
2.43.0


From e23423465266ef49b62cd83f09bc8e516f0c9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 26/50] fix: return values came after output parameters in
 results for strings, classes and containers

---
 pybindgen/container.py               |  2 +-
 pybindgen/cppclass.py                |  6 +++---
 pybindgen/typehandlers/smart_ptr.py  |  2 +-
 pybindgen/typehandlers/stringtype.py | 10 +++++-----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index d4c7f95..9d9d2e2 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -868,7 +868,7 @@ class ContainerReturnValue(ContainerReturnValueBase):
             raise NotSupportedError("reference return type not supported")
         retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
         assert retval == 'retval'
-        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value])
+        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value], prepend=True)
 
 
 ## end
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6f46fd7..e74656f 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3281,7 +3281,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3362,7 +3362,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3812,7 +3812,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 3a1fa46..5eee100 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -358,7 +358,7 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index 5cb4454..343dc72 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -202,7 +202,7 @@ class CharReturn(ReturnValue):
         wrapper.parse_params.add_parameter("c", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value])
+        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value], prepend=True)
 
 
 class CStringReturn(PointerReturnValue):
@@ -217,10 +217,10 @@ class CStringReturn(PointerReturnValue):
         return "return NULL;"
 
     def convert_python_to_c(self, wrapper):
-        wrapper.parse_params.add_parameter("s", ['&'+self.value])
+        wrapper.parse_params.add_parameter("s", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("s", [self.value])
+        wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
             wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, getattr(wrapper, 'function_name', '')))
@@ -236,7 +236,7 @@ class StdStringReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
         len_ = wrapper.declarations.declare_variable("Py_ssize_t", "retval_len")
-        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_])
+        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], prepend=True)
         wrapper.after_call.write_code(
             "%s = std::string(%s, %s);" % (self.value, ptr, len_))
 
@@ -392,7 +392,7 @@ class GlibStringReturn(ReturnValue):
 
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr])
+        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
         wrapper.after_call.write_code(
             "%s = Glib::ustring(%s);" % (self.value, ptr))
 
-- 
2.43.0


From 2aecac401816ca13d8f96133ddd030f2ff2b6c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 27/50] fix: output-only container references of virtual
 methods were passed to python as arguments

---
 pybindgen/container.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 9d9d2e2..07b53bf 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -738,18 +738,14 @@ class ContainerRefParameter(ContainerParameterBase):
         '''Write some code before calling the Python method.'''
         assert isinstance(wrapper, ReverseWrapperBase)
 
-        self.py_name = wrapper.declarations.declare_variable(
-            self.container_type.pystruct+'*', 'py_'+self.container_type.name)
-        wrapper.before_call.write_code(
-            "%s = PyObject_New(%s, %s);" %
-            (self.py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
-
         if self.direction & Parameter.DIRECTION_IN:
+            self.py_name = wrapper.declarations.declare_variable(
+                self.container_type.pystruct+'*', 'py_'+self.container_type.name)
+            wrapper.before_call.write_code(
+                "%s = PyObject_New(%s, %s);" %
+                (self.py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
             wrapper.before_call.write_code("%s->obj = new %s(%s);" % (self.py_name, self.container_type.full_name, self.name))
-        else:
-            wrapper.before_call.write_code("%s->obj = new %s;" % (self.py_name, self.container_type.full_name))
-
-        wrapper.build_params.add_parameter("N", [self.py_name])
+            wrapper.build_params.add_parameter("N", [self.py_name])
 
         if self.direction & Parameter.DIRECTION_OUT:
             wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.name], self.name)
-- 
2.43.0


From 01293e460d24aa320cb39a2058dc8c810edf6128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 28/50] fix: default values of float, scalar reference and
 class pointer parameters were ignored

---
 pybindgen/cppclass.py                |  8 ++++---
 pybindgen/typehandlers/booltype.py   | 26 +++++++++++++++-------
 pybindgen/typehandlers/doubletype.py |  4 ++--
 pybindgen/typehandlers/floattype.py  |  8 +++----
 pybindgen/typehandlers/inttype.py    | 33 +++++++++++++++-------------
 pybindgen/typehandlers/smart_ptr.py  | 12 +++++++---
 pybindgen/typehandlers/stringtype.py | 13 +++++++----
 7 files changed, 65 insertions(+), 39 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e74656f..26ad2d7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3468,14 +3468,16 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                "    else\n"
                                                "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                                "} else {\n"
-                                               "    %(VALUE)s = NULL;\n"
-                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                               "    %(VALUE)s = %(DEFAULT)s;\n"
+                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                          DEFAULT=self.default_value or 'NULL'))
 
             else:
 
                 wrapper.parse_params.add_parameter(
                     'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
-                wrapper.before_call.write_code("%s = (%s ? %s->obj : NULL);" % (value_ptr, self.py_name, self.py_name))
+                wrapper.before_call.write_code("%s = (%s ? %s->obj : %s);" % (value_ptr, self.py_name, self.py_name,
+                                                                              self.default_value or 'NULL'))
 
         value = self.transformation.transform(self, wrapper.declarations, wrapper.before_call, value_ptr)
         wrapper.call_params.append(value)
diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 5fadd2d..e5fb38d 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -70,10 +70,15 @@ class BoolPtrParam(Parameter):
         name = wrapper.declarations.declare_variable(str(base_ctype), self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
-            wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.before_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            if self.default_value is None:
+                py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
+                value = "PyObject_IsTrue(%s)" % (py_name,)
+            else:
+                py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name, 'NULL')
+                value = "%s? (bool) PyObject_IsTrue(%s) : %s" % (py_name, py_name, self.default_value)
+            wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value,
+                                               optional=(self.default_value is not None))
+            wrapper.before_call.write_code("%s = %s;" % (name, value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % name])
@@ -101,10 +106,15 @@ class BoolRefParam(Parameter):
         name = wrapper.declarations.declare_variable("bool", self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
-            wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.before_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            if self.default_value is None:
+                py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
+                value = "PyObject_IsTrue(%s)" % (py_name,)
+            else:
+                py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name, 'NULL')
+                value = "%s? (bool) PyObject_IsTrue(%s) : %s" % (py_name, py_name, self.default_value)
+            wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value,
+                                               optional=(self.default_value is not None))
+            wrapper.before_call.write_code("%s = %s;" % (name, value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % (name,)])
diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 74cc912..7b5321f 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -72,9 +72,9 @@ class DoubleRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
-        name = wrapper.declarations.declare_variable('double', self.name)
+        name = wrapper.declarations.declare_variable('double', self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('d', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('d', ['&'+name], self.name, optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("d", [name])
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index 2957ca0..3919745 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -17,8 +17,8 @@ class FloatParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name)
-        wrapper.parse_params.add_parameter('f', ['&'+name], self.value)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name, self.default_value)
+        wrapper.parse_params.add_parameter('f', ['&'+name], self.value, optional=bool(self.default_value))
         wrapper.call_params.append(name)
 
 
@@ -118,9 +118,9 @@ class FloatRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name, self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('f', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('f', ['&'+name], self.name, optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("f", [name])
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 562bd29..eaa6e3b 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -10,11 +10,11 @@ from .base import ReturnValue, Parameter, PointerParameter, PointerReturnValue,
      ReverseWrapperBase, ForwardWrapperBase, TypeConfigurationError, NotSupportedError
 
 
-def _parse_checked_int(wrapper, name, target, minimum, maximum):
+def _parse_checked_int(wrapper, name, target, minimum, maximum, default_value=None):
     """Parse a python integer into `target', a C lvalue of a type
     narrower than int, refusing values outside [minimum, maximum]."""
-    tmp = wrapper.declarations.declare_variable("int", name + "_int")
-    wrapper.parse_params.add_parameter('i', ['&'+tmp], name)
+    tmp = wrapper.declarations.declare_variable("int", name + "_int", default_value)
+    wrapper.parse_params.add_parameter('i', ['&'+tmp], name, optional=bool(default_value))
     out_of_range = '%s > %i || %s < %i' % (tmp, maximum, tmp, minimum)
     set_error = 'PyErr_SetString(PyExc_ValueError, "Out of range");'
     if isinstance(wrapper, ReverseWrapperBase):
@@ -234,10 +234,11 @@ class IntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name,
+                                                     self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('i', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("i", [name])
 
@@ -255,10 +256,11 @@ class UnsignedIntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name,
+                                                     self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('I', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('I', ['&'+name], self.name, optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("I", [name])
 
@@ -335,7 +337,7 @@ class UInt16RefParam(Parameter):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            _parse_checked_int(wrapper, self.name, name, 0, 0xffff)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xffff, self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("H", [name])
 
@@ -372,10 +374,11 @@ class Int16RefParam(Parameter):
             wrapper.parse_params.add_parameter("h", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name,
+                                                     self.default_value)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('h', ['&'+name], self.name)
+            wrapper.parse_params.add_parameter('h', ['&'+name], self.name, optional=bool(self.default_value))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("h", [name])
 
@@ -413,7 +416,7 @@ class UInt8RefParam(Parameter):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            _parse_checked_int(wrapper, self.name, name, 0, 0xff)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xff, self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -470,7 +473,7 @@ class Int8RefParam(Parameter):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            _parse_checked_int(wrapper, self.name, name, -0x80, 0x7f)
+            _parse_checked_int(wrapper, self.name, name, -0x80, 0x7f, self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -719,7 +722,7 @@ class Int8PtrParam(PointerParameter):
         name = wrapper.declarations.declare_variable('int8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            _parse_checked_int(wrapper, self.name, name, -0x80, 0x7f)
+            _parse_checked_int(wrapper, self.name, name, -0x80, 0x7f, self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -748,7 +751,7 @@ class UInt8PtrParam(PointerParameter):
         name = wrapper.declarations.declare_variable('uint8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            _parse_checked_int(wrapper, self.name, name, 0, 0xff)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xff, self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -776,6 +779,6 @@ class UnsignedInt16PtrParam(PointerParameter):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            _parse_checked_int(wrapper, self.name, name, 0, 0xffff)
+            _parse_checked_int(wrapper, self.name, name, 0, 0xffff, self.default_value)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter('H', [name])
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 5eee100..0fd7806 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -193,14 +193,20 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                                            "    else\n"
                                            "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                            "} else {\n"
-                                           "    %(VALUE)s = NULL;\n"
-                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                           "    %(VALUE)s = %(DEFAULT)s;\n"
+                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                      DEFAULT=self.default_value or 'NULL'))
 
         else:
 
             wrapper.parse_params.add_parameter(
                 'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
-            wrapper.before_call.write_code("if (%s) { %s = %s->obj; }" % (self.py_name, value_ptr, self.py_name))
+            if self.default_value:
+                wrapper.before_call.write_code("if (%s) { %s = %s->obj; } else { %s = %s; }"
+                                               % (self.py_name, value_ptr, self.py_name,
+                                                  value_ptr, self.default_value))
+            else:
+                wrapper.before_call.write_code("if (%s) { %s = %s->obj; }" % (self.py_name, value_ptr, self.py_name))
 
         wrapper.call_params.append(value_ptr)
         
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index 343dc72..c090c25 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -319,14 +319,19 @@ class GlibStringRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable("const char *", self.name)
+        name = wrapper.declarations.declare_variable("const char *", self.name, self.default_value and 'NULL')
         name_std = wrapper.declarations.declare_variable("Glib::ustring", self.name + '_std')
         wrapper.call_params.append(name_std)
 
         if self.direction & Parameter.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
-            wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
-                                           (name_std, name))
+            if self.default_value is None:
+                wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
+                wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
+                                               (name_std, name))
+            else:
+                wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value, optional=True)
+                wrapper.before_call.write_code('%s = %s ? Glib::ustring(%s) : %s;' %
+                                               (name_std, name, name, self.default_value))
 
         if self.direction & Parameter.DIRECTION_OUT:
             wrapper.build_params.add_parameter("s#", ['('+name_std+').c_str()', '('+name_std+').bytes()'])
-- 
2.43.0


From 16ab9b5dc4a7d4b1f3069f5eba25640c9c0dec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 29/50] fix: failures of virtual method overrides left a python
 exception set, or printed it without the GIL

---
 pybindgen/cppmethod.py         |  3 +--
 pybindgen/typehandlers/base.py | 10 ++++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index d4fca66..3bbb929 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1053,7 +1053,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         params.extend(build_params)
         self.before_call.write_code('py_retval = PyObject_CallMethod(%s);'
                                     % (', '.join(params),))
-        self.before_call.write_error_check('py_retval == NULL', failure_cleanup='PyErr_Print();')
+        self.before_call.write_error_check('py_retval == NULL')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
 
     def generate_declaration(self, code_sink):
@@ -1112,7 +1112,6 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
                     pass
                 else:
                     self.set_error_return('''
-PyErr_Print();
 Py_FatalError("Error detected, but parent virtual is pure virtual or private virtual, "
               "and return is a class without trival constructor");''')
             else:
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index f3d444a..1b6f082 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -152,6 +152,7 @@ class CodeBlock(object):
         self._cleanup_actions = {}
         self._last_cleanup_position = 0
         self.error_return = error_return
+        self.error_report = None # code that reports the error, run before the cleanup actions
         self.declarations = declarations
 
     def clear(self):
@@ -236,6 +237,8 @@ class CodeBlock(object):
     def write_error_return(self):
         '''Add a chunk of code that cleans up and returns an error.
         '''
+        if self.error_report is not None:
+            self.sink.writeln(self.error_report)
         self.write_cleanup()
         self.sink.writeln(self.error_return)
 
@@ -620,6 +623,10 @@ class ReverseWrapperBase(object):
         assert py_retval == "py_retval", "py_retval already declared: "\
           "generating the same wrapper twice without a reset() in between?"
 
+        ## the C++ caller cannot receive a python exception
+        self.before_call.error_report = 'PyErr_Print();'
+        self.after_call.error_report = 'PyErr_Print();'
+
         if self.return_value.ctype != 'void' \
                 and not self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR \
                 and not self.return_value.NO_RETVAL_DECL:
@@ -650,8 +657,7 @@ class ReverseWrapperBase(object):
             parse_params[0] = '(char *) ' + parse_params[0]
             parse_tuple_params.extend(parse_params)
             self.before_call.write_error_check('!PyArg_ParseTuple(%s)' %
-                                               (', '.join(parse_tuple_params),),
-                                               failure_cleanup='PyErr_Print();')
+                                               (', '.join(parse_tuple_params),))
 
         ## cleanup and return
         self.after_call.write_cleanup()
-- 
2.43.0


From 87a60eaec5c13d6209e993ac602e4394db4882ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 30/50] fix: deleting a wrapped attribute crashed the
 interpreter

The setters get a NULL value for 'del obj.attr', and passed it on to
Py_BuildValue and the resulting NULL tuple to PyArg_ParseTuple.
---
 pybindgen/cppattribute.py       | 8 ++++++++
 pybindgen/cppcustomattribute.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index f2c0006..ffa9c08 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -144,6 +144,10 @@ class CppInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL',
+            'PyErr_SetString(PyExc_TypeError, "cannot delete attribute %s");'
+            % (self.attribute_name,))
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
@@ -218,6 +222,10 @@ class CppStaticAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL',
+            'PyErr_SetString(PyExc_TypeError, "cannot delete attribute %s");'
+            % (self.attribute_name,))
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index a504551..4d6402d 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -75,6 +75,10 @@ class CppCustomInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL',
+            'PyErr_SetString(PyExc_TypeError, "cannot delete attribute %s");'
+            % (self.attribute_name,))
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
-- 
2.43.0


From b403e49b14fa31b7338696a66b2222731dab9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 31/50] fix: deleting an item of a wrapped sequence crashed the
 interpreter

---
 pybindgen/pytypeobject.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index 3c44a92..4a29ca4 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -416,6 +416,10 @@ static int
     PyObject *result;
     PyObject *args;
 
+    if (py_val == NULL) {
+        PyErr_SetString(PyExc_TypeError, "object doesn't support item deletion");
+        return -1;
+    }
     args = Py_BuildValue("(lO)", (long) py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
@@ -452,6 +456,10 @@ static int
     PyObject *result;
     PyObject *args;
 
+    if (py_vals == NULL) {
+        PyErr_SetString(PyExc_TypeError, "object doesn't support slice deletion");
+        return -1;
+    }
     args = Py_BuildValue("(llO)", (long) py_i1, (long) py_i2, py_vals);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
-- 
2.43.0


From aba9b0012366d551620f5926797db4b914189443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 32/50] fix: the cpp_namespace option of an enum was not part
 of its type name

---
 pybindgen/enum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 960da58..8c30ec0 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -68,13 +68,16 @@ class Enum(object):
             return
 
         if self.outer_class is None:
+            name = self.name
+            if self.cpp_namespace:
+                name = self.cpp_namespace + '::' + name
             if self._module.cpp_namespace_prefix:
                 if self._module.cpp_namespace_prefix == '::':
-                    self.full_name = '::' + self.name
+                    self.full_name = '::' + name
                 else:
-                    self.full_name = self._module.cpp_namespace_prefix + '::' + self.name
+                    self.full_name = self._module.cpp_namespace_prefix + '::' + name
             else:
-                self.full_name = self.name
+                self.full_name = name
         else:
             self.full_name = '::'.join([self.outer_class.full_name, self.name])
 
-- 
2.43.0


From 747c84da5a26c3c01d11d03ca1f1c33aa316d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 33/50] fix: the values_prefix option of an enum nested in a
 class was ignored

---
 pybindgen/enum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 8c30ec0..f639dd6 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -158,7 +158,7 @@ class Enum(object):
                 else:
                     module.after_init.write_code(
                         "PyModule_AddIntConstant(m, (char *) \"%s\", %s);"
-                        % (value, '::'.join(namespace + [self.values_prefix + value])))
+                        % (value, '::'.join(namespace + [(self.values_prefix or '') + value])))
         else:
             module.after_init.write_code("{")
             module.after_init.indent()
@@ -168,7 +168,7 @@ class Enum(object):
                     value_name, value_str = value
                 else:
                     value_name = value
-                    value_str = "%s::%s" % (self.outer_class.full_name, value)
+                    value_str = "%s::%s" % (self.outer_class.full_name, (self.values_prefix or '') + value)
                 module.after_init.write_code(
                     ' // %s\n'
                     'tmp_value = PyLong_FromLong(%s);\n'
-- 
2.43.0


From c32be49f526debda8229baf2f6a74736b9494b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 34/50] fix: a function added as method without custom_name was
 exposed as None

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 26ad2d7..804063b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1433,7 +1433,7 @@ public:
         if isinstance(method, CppMethod):
             name = method.mangled_name
         elif isinstance(method, function.Function):
-            name = method.custom_name
+            name = method.mangled_name
             assert isinstance(method.parameters[0], CppClassParameterBase)
             assert method.parameters[0].cpp_class is self, \
                 "expected first parameter to be of class %s, but it is of class %s" % \
-- 
2.43.0


From 52a107e58c5e533e13ce68730ac8fa6b4c1af597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 35/50] fix: wrappers that do not own their object released it
 under a memory policy

The tp_dealloc/tp_clear code of the reference counting and free function
policies ignored PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED, so an object
returned with reference_existing_object or caller_manages_return=False was
freed or unreferenced by a wrapper that never owned it.
---
 pybindgen/cppclass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 804063b..0317772 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -183,7 +183,9 @@ class ReferenceCountingMethodsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    tmp->%s();\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        tmp->%s();\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_method))
         return delete_code
@@ -210,7 +212,9 @@ class ReferenceCountingFunctionsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_function))
         return delete_code
@@ -229,7 +233,9 @@ class FreeFunctionPolicy(MemoryPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.free_function))
         return delete_code
-- 
2.43.0


From 85498730bbb6f62553ef85383d3b48fb64bc229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 36/50] fix: proxies released objects they had only borrowed

A virtual method proxy hands an inout reference to Python in a temporary
wrapper.  When the Python method failed the wrapper still pointed to the
caller's object and released it.  Also, a reference counted object passed
with transfer_ownership whose wrapper already exists kept one reference
too many.
---
 pybindgen/cppclass.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0317772..ae3fe2b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3208,7 +3208,12 @@ class CppClassRefParameter(CppClassParameterBase):
             wrapper.before_call.write_code(
                 "%s->obj = %s;" % (self.py_name, value))
             wrapper.build_params.add_parameter("O", [self.py_name])
-            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
+            ## if the call fails the code below does not run, and the
+            ## wrapper must not release an object that it does not own.
+            wrapper.before_call.add_cleanup_code(
+                "if (%s->obj == %s)\n"
+                "    %s->obj = NULL;\n"
+                "Py_DECREF(%s);" % (self.py_name, value, self.py_name, self.py_name))
 
             if self.cpp_class.has_copy_constructor:
                 ## if after the call we notice the callee kept a reference
@@ -3626,6 +3631,16 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
         ## closes def write_create_new_wrapper():
 
+        def write_drop_transferred_reference():
+            """The existing python wrapper is reused: it already holds a
+            reference to the C++ object, we do not need another one."""
+            if self.transfer_ownership and \
+                    isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
+                wrapper.before_call.write_code("} else {")
+                wrapper.before_call.indent()
+                self.cpp_class.memory_policy.write_decref(wrapper.before_call, value)
+                wrapper.before_call.unindent()
+
         if self.cpp_class.helper_class is None:
             try:
                 if self.cpp_class.memory_policy is not None:
@@ -3645,6 +3660,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
                                                                            "%s->obj" % py_name)
                 wrapper.before_call.unindent()
+                write_drop_transferred_reference()
                 wrapper.before_call.write_code('}')
             if not temporary_wrapper:
                 wrapper.build_params.add_parameter("N", [py_name])
@@ -3666,6 +3682,11 @@ class CppClassPtrParameter(CppClassParameterBase):
                     % (py_name, self.cpp_class.pystruct,
                        self.cpp_class.helper_class.name, value))
                 wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+            # We are already referencing the existing python wrapper,
+            # so we do not need a reference to the C++ object as well.
+            if self.transfer_ownership and \
+                    isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
+                self.cpp_class.memory_policy.write_decref(wrapper.before_call, value)
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("} else {")
@@ -3689,6 +3710,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
                                                                            "%s->obj" % py_name)
                 wrapper.before_call.unindent()
+                write_drop_transferred_reference()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
             wrapper.before_call.unindent()
-- 
2.43.0


From 96a8a36272e5516ea406ad444aab6a06da0291fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 37/50] fix: __copy__ and tp_clear of classes held by a smart
 pointer

__copy__ assigned a raw pointer to the smart pointer, which does not
compile, and tp_clear destroyed the smart pointer that tp_dealloc then
destroyed again.
---
 pybindgen/cppclass.py               | 5 ++++-
 pybindgen/typehandlers/smart_ptr.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ae3fe2b..8b2a9d6 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2308,7 +2308,10 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         py_copy = declarations.declare_variable("%s*" % self.pystruct, "py_copy")
         self.write_allocate_pystruct(code_block, py_copy)
-        code_block.write_code("%s->obj = new %s(*self->obj);" % (py_copy, construct_name))
+        if isinstance(self.memory_policy, SmartPointerPolicy):
+            self.write_create_instance(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
+        else:
+            code_block.write_code("%s->obj = new %s(*self->obj);" % (py_copy, construct_name))
         if self.allow_subclassing:
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 0fd7806..d2851fe 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -24,7 +24,8 @@ class BoostSharedPtr(SmartPointerPolicy):
         return self.pointer_template % (class_name,)
         
     def get_delete_code(self, cpp_class):
-        return "self->obj.~shared_ptr< %s >();" % (cpp_class.full_name,)
+        # not the destructor: both tp_clear and tp_dealloc may run this
+        return "self->obj.reset();"
 
     def get_pointer_type(self, class_full_name):
         return self.get_pointer_name(class_full_name) + ' '
-- 
2.43.0


From e623867648eb107f4667e88c9413ae10592b4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 38/50] fix: the wrapper registry kept entries of wrappers that
 gave up their object

tp_clear set self->obj to NULL before tp_dealloc looked up the registry
entry by that pointer, so the entry outlived the wrapper.
---
 pybindgen/cppclass.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8b2a9d6..d23e04e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2469,11 +2469,21 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         code_sink.writeln(r'''
 static void
 %s(%s *self)
-{
-    Py_CLEAR(self->inst_dict);
-    %s
-}
-''' % (tp_clear_function_name, self.pystruct, delete_code))
+{''' % (tp_clear_function_name, self.pystruct))
+        code_sink.indent()
+        code_block = CodeBlock("return;", DeclarationsScope())
+        code_block.write_code("Py_CLEAR(self->inst_dict);")
+        ## once self->obj is cleared tp_dealloc cannot find the registry entry anymore
+        if self.memory_policy is not None:
+            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
+        else:
+            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', 'self->obj')
+        code_block.write_code(delete_code)
+        code_block.write_cleanup()
+        code_block.declarations.get_code_sink().flush_to(code_sink)
+        code_block.sink.flush_to(code_sink)
+        code_sink.unindent()
+        code_sink.writeln('}\n')
 
         ## --- tp_traverse ---
         tp_traverse_function_name = "%s__tp_traverse" % (self.pystruct,)
@@ -3873,6 +3883,11 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
                     # value = pyobj->obj; pyobj->obj = NULL;
                     wrapper.after_call.write_code(
                         "%s = %s;" % (self.value, value))
+                    if self.cpp_class.memory_policy is not None:
+                        key = self.cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % name)
+                    else:
+                        key = "%s->obj" % name
+                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call, name, key)
                     wrapper.after_call.write_code(
                         "%s = NULL;" % (value,))
             else:
-- 
2.43.0


From fec5417e0d4d6663da06500003f5634cd094cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 39/50] fix: declared exceptions of protected methods escaped
 from the wrapper

---
 pybindgen/cppmethod.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 3bbb929..a2fa7e3 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -300,6 +300,10 @@ class CppMethod(ForwardWrapperBase):
                            ", ".join(self.call_params)
                            )))
 
+        self._write_exception_handlers()
+
+    def _write_exception_handlers(self):
+        "close the try block of the call, converting the declared C++ exceptions"
         if self.throw:
             for exc in self.throw:
                 self.before_call.unindent()
@@ -899,7 +903,8 @@ class CppVirtualMethodParentCaller(CppMethod):
 
     def __init__(self, method, unblock_threads=None):
         super(CppVirtualMethodParentCaller, self).__init__(
-            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads)
+            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
+            throw=method.throw)
         #self.static_decl = False
         self.method = method
 
@@ -965,6 +970,10 @@ class CppVirtualMethodParentCaller(CppMethod):
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
 
+        if self.throw:
+            self.before_call.write_code('try\n{')
+            self.before_call.indent()
+
         if self.return_value.ctype == 'void':
             self.before_call.write_code(
                 '%s(%s);' %
@@ -979,6 +988,8 @@ class CppVirtualMethodParentCaller(CppMethod):
                     'retval = %s(%s);' %
                     (method, ", ".join(self.call_params)))
 
+        self._write_exception_handlers()
+
     def get_py_method_def(self, method_name=None):
         "Get the PyMethodDef entry suitable for this method"
 
-- 
2.43.0


From 382cba152484c0b2a5b181d36e560e3d43f8b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 40/50] fix: calling the parent implementation of an inherited
 virtual from an override recursed

---
 pybindgen/cppclass.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d23e04e..7a66ea5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2330,7 +2330,25 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         code_sink.writeln()
         return copy_wrapper_name
 
-    def _generate_MI_parent_methods(self, code_sink):
+    def _get_inherited_virtual_names(self):
+        """names of the inherited methods that Python subclasses may override"""
+        mro = self.get_mro()
+        next(mro)
+        names = []
+        for base in mro:
+            for method_name, overload in base.methods.items():
+                if method_name in self.methods or method_name in names:
+                    continue
+                for wrapper in overload.wrappers:
+                    if wrapper.is_virtual and not wrapper.is_pure_virtual:
+                        names.append(method_name)
+                        break
+        return names
+
+    def _generate_MI_parent_methods(self, code_sink, names=None):
+        """
+        :param names: if not None, wrap only these methods, as the closest parent class defines them
+        """
         methods = {}
         mro = self.get_mro()
         next(mro)
@@ -2341,6 +2359,12 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                 if method_name in (['__call__'] + list(self.valid_sequence_methods)):
                     continue
 
+                if names is not None:
+                    if method_name not in names:
+                        continue
+                    if method_name in methods:
+                        continue # hidden by the one of a closer parent class
+
                 try:
                     overload = methods[method_name]
                 except KeyError:
@@ -2419,6 +2443,11 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         if len(self.bases) > 1: # https://bugs.launchpad.net/pybindgen/+bug/563786
             method_defs.extend(self._generate_MI_parent_methods(code_sink))
+        elif self.helper_class is not None:
+            ## the wrappers of the parent class do not recognise our
+            ## helper class: calling the parent implementation from a
+            ## Python override would end up in the override again
+            method_defs.extend(self._generate_MI_parent_methods(code_sink, self._get_inherited_virtual_names()))
 
         if self.has_copy_constructor:
             try:
-- 
2.43.0


From cca337418f5d6753ea15a7136a878781555328ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 41/50] fix: overrides of inherited virtual methods were
 ignored in classes without virtuals of their own

---
 pybindgen/cppclass.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7a66ea5..f1a723e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1804,6 +1804,15 @@ public:
                 method = method.clone()
                 self.helper_class.add_virtual_method(method)
 
+    def _have_parent_virtuals(self):
+        mro = self.get_mro()
+        next(mro) # skip 'self'
+        for cls in mro:
+            for method in cls.get_all_methods():
+                if method.is_virtual:
+                    return True
+        return False
+
     def _get_wrapper_registry(self):
         # there is one wrapper registry object per root class only,
         # which is used for all subclasses.
@@ -1821,6 +1830,9 @@ public:
         structures.
         """
 
+        if not self.import_from_module and self.destructor_visibility != 'private' and self._have_parent_virtuals():
+            self.get_helper_class() # Python subclasses may override the inherited virtual methods
+
         if self.memory_policy is not None:
             pointer_type = self.memory_policy.get_pointer_type(self.full_name)
         else:
-- 
2.43.0


From bd055c07bbae8c7e69eb0797b8a9a6db734856e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 42/50] fix: destroying a proxy object released its Python
 object without the interpreter lock

---
 pybindgen/cppclass.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f1a723e..553fcfd 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -419,7 +419,17 @@ void set_pyobj(PyObject *pyobj)
         ## write a destructor
         code_sink.writeln("virtual ~%s()\n{" % self.name)
         code_sink.indent()
+        ## C++ code may destroy the object without holding the interpreter lock
+        code_sink.writeln("if (m_pyself != NULL && Py_IsInitialized()) {")
+        code_sink.indent()
+        code_sink.writeln("PyGILState_STATE __py_gil_state = (PyEval_ThreadsInitialized() ? PyGILState_Ensure() : (PyGILState_STATE) 0);")
         code_sink.writeln("Py_CLEAR(m_pyself);")
+        code_sink.writeln("if (PyEval_ThreadsInitialized())")
+        code_sink.indent()
+        code_sink.writeln("PyGILState_Release(__py_gil_state);")
+        code_sink.unindent()
+        code_sink.unindent()
+        code_sink.writeln("}")
         code_sink.unindent()
         code_sink.writeln("}\n")
 
-- 
2.43.0


From ae51513d8d5995b606d0f9506cce41ded4635fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 43/50] fix: methods redefined along a base chain were dropped
 from classes with several bases

---
 pybindgen/cppclass.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 553fcfd..6782843 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2369,7 +2369,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
     def _generate_MI_parent_methods(self, code_sink, names=None):
         """
-        :param names: if not None, wrap only these methods, as the closest parent class defines them
+        :param names: if not None, wrap only these methods
         """
         methods = {}
         mro = self.get_mro()
@@ -2381,11 +2381,8 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                 if method_name in (['__call__'] + list(self.valid_sequence_methods)):
                     continue
 
-                if names is not None:
-                    if method_name not in names:
-                        continue
-                    if method_name in methods:
-                        continue # hidden by the one of a closer parent class
+                if names is not None and method_name not in names:
+                    continue
 
                 try:
                     overload = methods[method_name]
@@ -2394,6 +2391,11 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                     overload.pystruct = self.pystruct
                     methods[method_name] = overload
 
+                # the method of a closer class hides the one of its base
+                if any(wrapper.original_class is not base and wrapper.original_class.is_subclass(base)
+                       for wrapper in overload.wrappers):
+                    continue
+
                 for parent_wrapper in parent_overload.wrappers:
 
                     if parent_wrapper.visibility != 'public':
-- 
2.43.0


From 75fb105bd381acf249fc7047e4c21c7033fa6d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 44/50] fix: unsupported default values and references ended in
 assertion failures

---
 pybindgen/container.py               |  6 ++++--
 pybindgen/typehandlers/stringtype.py | 13 ++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 07b53bf..77e4016 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -678,7 +678,8 @@ class ContainerParameter(ContainerParameterBase):
         assert isinstance(wrapper, ForwardWrapperBase)
         assert isinstance(self.container_type, Container)
 
-        assert self.default_value is None, "default value not implemented for containers"
+        if self.default_value is not None:
+            raise NotSupportedError("default value not implemented for containers")
 
         #self.py_name = wrapper.declarations.declare_variable('PyObject*', self.name)
         container_tmp_var = wrapper.declarations.declare_variable(
@@ -775,7 +776,8 @@ class ContainerPtrParameter(ContainerParameterBase):
         assert isinstance(wrapper, ForwardWrapperBase)
         assert isinstance(self.container_type, Container)
 
-        assert self.default_value is None, "default value not implemented for containers"
+        if self.default_value is not None:
+            raise NotSupportedError("default value not implemented for containers")
 
 
         if self.direction == Parameter.DIRECTION_IN:
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index c090c25..2a3631b 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -1,7 +1,8 @@
 # docstrings not neede here (the type handler interfaces are fully
 # documented in base.py) pylint: disable-msg=C0111
 
-from .base import ReturnValue, PointerReturnValue, Parameter, PointerParameter, ReverseWrapperBase, ForwardWrapperBase
+from .base import ReturnValue, PointerReturnValue, Parameter, PointerParameter, ReverseWrapperBase, ForwardWrapperBase, \
+    NotSupportedError
 
 
 class CStringParam(PointerParameter):
@@ -170,7 +171,8 @@ class StdStringPtrParam(PointerParameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        assert self.default_value is None, "default_value not implemented yet"
+        if self.default_value is not None:
+            raise NotSupportedError("default_value not implemented yet")
         name = wrapper.declarations.declare_variable("const char *", self.name)
         name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len')
         if self.transfer_ownership:
@@ -252,9 +254,9 @@ class StdStringRefReturn(ReturnValue):
 
     # Implementing reverse wrapper with reference types is not impossible but really hard
     def get_c_error_return(self):
-        raise NotImplementedError
+        return 'Py_FatalError("std::string references cannot be converted from python");' # refused below
     def convert_python_to_c(self, wrapper):
-        raise NotImplementedError
+        raise NotSupportedError("std::string references cannot be converted from python")
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter("s#", ['(%s).c_str()' % self.value,
@@ -368,7 +370,8 @@ class GlibStringPtrParam(PointerParameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        assert self.default_value is None, "default_value not implemented yet"
+        if self.default_value is not None:
+            raise NotSupportedError("default_value not implemented yet")
         name = wrapper.declarations.declare_variable("const char *", self.name)
         if self.transfer_ownership:
             name_std = wrapper.declarations.declare_variable("Glib::ustring*", self.name + '_std', 'new Glib::ustring')
-- 
2.43.0


From ed984e942528b447b220af44c5352af34d895668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 45/50] fix: attributes whose accessors were skipped stayed in
 the table

---
 pybindgen/cppattribute.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index ffa9c08..8228637 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -405,6 +405,8 @@ class PyGetSetDef(object):
                 else:
                     setter_name = setter.c_function_name
             assert name not in getsets
+            if getter_name == 'NULL' and setter_name == 'NULL':
+                continue # nothing left of the attribute
             getsets[name] = (getter_name, setter_name, custom_name)
         
         code_sink.writeln("static PyGetSetDef %s[] = {" % self.cname)
-- 
2.43.0


From bce0b13a96cb99fd2269d7dbc0f8d71244e9b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 46/50] fix: add_constructor with a Function and cloning parent
 callers raised TypeError

---
 pybindgen/cppclass.py  | 2 +-
 pybindgen/cppmethod.py | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6782843..3a0a3ec 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1667,7 +1667,7 @@ public:
             warnings.warn("add_constructor has changed API; see the API documentation",
                           DeprecationWarning, stacklevel=2)
             func = args[0]
-            constructor = CppFunctionAsConstructor(func.function_name, func.parameters)
+            constructor = CppFunctionAsConstructor(func.function_name, func.return_value, func.parameters)
             constructor.module = self.module
         ## </compat>
         else:
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index a2fa7e3..16732d4 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1012,12 +1012,9 @@ class CppVirtualMethodParentCaller(CppMethod):
         method wrapper clone contains copies of all parameters, so
         they can be modified at will.
         """
-        meth = CppVirtualMethodParentCaller(
-            self.return_value,
-            self.method_name,
-            [copy(param) for param in self.parameters])
+        meth = CppVirtualMethodParentCaller(self.method, unblock_threads=self.unblock_threads)
+        meth.parameters = [copy(param) for param in self.parameters]
         #meth._class = self._class
-        meth.method = self.method
         meth._helper_class = self._helper_class
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
-- 
2.43.0


From d51dd29a068b1d46b236b41b1145b74ad8f93bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 47/50] fix: a NULL result dropped the output parameters and
 custodians of the call

---
 pybindgen/cppclass.py               | 19 ++++++++++---------
 pybindgen/typehandlers/smart_ptr.py | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 3a0a3ec..d44e5ed 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3875,26 +3875,27 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
 
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {" % value)
-        wrapper.after_call.indent()
-        wrapper.after_call.write_cleanup()
-        wrapper.after_call.write_code("Py_INCREF(Py_None);")
-        wrapper.after_call.write_code("return Py_None;")
-        wrapper.after_call.unindent()
-        wrapper.after_call.write_code("}")
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, return None
+        wrapper.after_call.write_code("if (!(%s)) {" % value)
+        wrapper.after_call.indent()
+        wrapper.after_call.write_code("Py_INCREF(Py_None);")
+        wrapper.after_call.write_code("%s = (%s *) Py_None;" % (py_name, self.cpp_class.pystruct))
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("} else {")
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, self.caller_owns_return,
                                     self.reference_existing_object,
                                     type_is_pointer=True,
                                     caller_manages_return=self.caller_manages_return,
                                     free_after_copy=self.free_after_copy)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index d2851fe..7b2a46f 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -337,24 +337,25 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
         
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {" % value)
-        wrapper.after_call.indent()
-        wrapper.after_call.write_cleanup()
-        wrapper.after_call.write_code("Py_INCREF(Py_None);")
-        wrapper.after_call.write_code("return Py_None;")
-        wrapper.after_call.unindent()
-        wrapper.after_call.write_code("}")
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, return None
+        wrapper.after_call.write_code("if (!(%s)) {" % value)
+        wrapper.after_call.indent()
+        wrapper.after_call.write_code("Py_INCREF(Py_None);")
+        wrapper.after_call.write_code("%s = (%s *) Py_None;" % (py_name, self.cpp_class.pystruct))
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("} else {")
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, caller_owns_return=True,
                                     reference_existing_object=False,
                                     type_is_pointer=True)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
-- 
2.43.0


From 245bd79d13b3da3a65f95f5eb010a2d5a20a9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 48/50] fix: wards were lost when equal to others, and
 custodians without dictionary left an exception set

---
 pybindgen/cppclass.py          | 46 +++++++++++++++++++++++-----------
 pybindgen/typehandlers/base.py |  9 +++++++
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d44e5ed..57d84e7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3991,22 +3991,39 @@ def scan_custodians_and_wards(wrapper):
 
 
 
-def _add_ward(code_block, custodian, ward):
-    wards = code_block.declare_variable(
-        'PyObject*', 'wards')
+def _add_ward(code_block, custodian, ward, failure_cleanup=None):
+    wards = code_block.declare_variable('PyObject*', 'wards', 'NULL')
+    index = code_block.declare_variable('Py_ssize_t', 'wards_index')
+    found = code_block.declare_variable('int', 'wards_found', '0')
+    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
+    ## either of them may be missing: optional parameters, NULL results
+    condition = ' && '.join("%s && %s != Py_None" % (obj, obj) for obj in (custodian, ward))
     code_block.write_code(
-        "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
-        % vars())
+        "if (%(condition)s) {\n"
+        "    %(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");\n"
+        "    if (%(wards)s == NULL) {\n"
+        "        PyErr_Clear();\n"
+        "        %(wards)s = PyList_New(0);\n"
+        "        if (PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s) < 0) {\n"
+        "            Py_CLEAR(%(wards)s);\n"
+        "        }\n"
+        "    }" % vars())
+    ## objects without instance dictionary cannot be custodians
+    code_block.indent()
+    code_block.write_error_check("!%s" % wards, failure_cleanup)
+    code_block.unindent()
+    ## look for the object itself, it may be equal to another ward
     code_block.write_code(
-        "if (%(wards)s == NULL) {\n"
-        "    PyErr_Clear();\n"
-        "    %(wards)s = PyList_New(0);\n"
-        "    PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s);\n"
+        "    for (%(index)s = 0; %(index)s < PyList_GET_SIZE(%(wards)s); %(index)s++) {\n"
+        "        if (PyList_GET_ITEM(%(wards)s, %(index)s) == %(ward)s) {\n"
+        "            %(found)s = 1;\n"
+        "            break;\n"
+        "        }\n"
+        "    }\n"
+        "    if (!%(found)s) {\n"
+        "        PyList_Append(%(wards)s, %(ward)s);\n"
+        "    }\n"
         "}" % vars())
-    code_block.write_code(
-        "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
-        "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
-    code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
 
 
 def _get_custodian_or_ward(wrapper, num):
@@ -4041,6 +4058,7 @@ def implement_parameter_custodians_postcall(wrapper):
         if postcall:
             _add_ward(wrapper.after_call,
                       _get_custodian_or_ward(wrapper, custodian),
-                      _get_custodian_or_ward(wrapper, ward))
+                      _get_custodian_or_ward(wrapper, ward),
+                      wrapper.build_params.get_failure_cleanup())
 
 
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 1b6f082..032610b 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -419,6 +419,15 @@ class BuildValueParameters(object):
         """Get a list of handles to cleanup actions"""
         return [cleanup for (dummy, dummy, cleanup) in self._build_value_items]
 
+    def get_failure_cleanup(self):
+        """Get code that drops the references which the value being built
+        would take over and that no cleanup action covers, or None"""
+        names = [param_values[0] for (param_template, param_values, cleanup) in self._build_value_items
+                 if param_template == 'N' and cleanup is None and param_values[0].replace('_', '').isalnum()]
+        if not names:
+            return None
+        return '\n'.join(['Py_DECREF(%s);' % name for name in names])
+
 
 class DeclarationsScope(object):
     """Manages variable declarations in a given scope."""
-- 
2.43.0


From fddfb14a29ace0ccd7fe14f9905ddf7708b7828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 49/50] fix: buffers and strings of string parameters leaked

---
 pybindgen/typehandlers/stringtype.py | 73 +++++++++++++++++-----------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index 2a3631b..adb4b41 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -148,6 +148,8 @@ class StdStringPtrParam(PointerParameter):
 
     def convert_c_to_python(self, wrapper):
         assert isinstance(wrapper, ReverseWrapperBase)
+        if self.transfer_ownership:
+            wrapper.before_call.add_cleanup_code("delete %s;" % (self.value,))
         ptr = None
         if self.direction & Parameter.DIRECTION_IN:
             ptr = wrapper.declarations.declare_variable("const char *", self.name + "_ptr")
@@ -165,9 +167,6 @@ class StdStringPtrParam(PointerParameter):
             wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], self.value)
             wrapper.after_call.write_code(
                 "*%s = std::string(%s, %s);" % (self.value, ptr, len_))
-        if self.transfer_ownership:
-            wrapper.after_call.write_code("delete %s;" % (self.value,))
-
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
@@ -175,8 +174,14 @@ class StdStringPtrParam(PointerParameter):
             raise NotSupportedError("default_value not implemented yet")
         name = wrapper.declarations.declare_variable("const char *", self.name)
         name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len')
+        if self.transfer_ownership and self.direction == Parameter.DIRECTION_IN:
+            # allocated by the call itself: nothing to free when the call is not reached
+            wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value)
+            wrapper.call_params.append('new std::string(%s, %s)' % (name, name_len))
+            return
         if self.transfer_ownership:
-            name_std = wrapper.declarations.declare_variable("std::string*", self.name + '_std', 'new std::string')
+            name_std = wrapper.declarations.declare_variable("std::string*", self.name + '_std')
+            wrapper.before_call.write_code("%s = new std::string;" % name_std)
             wrapper.call_params.append('%s' % name_std)
             name_std_value = '*' + name_std
         else:
@@ -283,13 +288,15 @@ class GlibStringParam(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         if self.default_value is None:
             name = wrapper.declarations.declare_variable("const char *", self.name)
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
-            wrapper.call_params.append('Glib::ustring(%s)' % (name))
+            name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len')
+            wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value)
+            wrapper.call_params.append('Glib::ustring(std::string(%s, %s))' % (name, name_len))
         else:
             name = wrapper.declarations.declare_variable("const char *", self.name, 'NULL')
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value, optional=True)
-            wrapper.call_params.append('(%s ? Glib::ustring(%s) : %s)'
-                                       % (name, name, self.default_value))
+            name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len', '0')
+            wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value, optional=True)
+            wrapper.call_params.append('(%s ? Glib::ustring(std::string(%s, %s)) : %s)'
+                                       % (name, name, name_len, self.default_value))
 
 
 class GlibStringRefParam(Parameter):
@@ -315,25 +322,27 @@ class GlibStringRefParam(Parameter):
         if self.direction & Parameter.DIRECTION_OUT:
             if ptr is None:
                 ptr = wrapper.declarations.declare_variable("const char *", self.name + "_ptr")
-            wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], self.value)
+                len_ = wrapper.declarations.declare_variable("Py_ssize_t", self.name + "_len")
+            wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], self.value)
             wrapper.after_call.write_code(
-                "%s = Glib::ustring(%s);" % (self.value, ptr))
+                "%s = Glib::ustring(std::string(%s, %s));" % (self.value, ptr, len_))
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("const char *", self.name, self.default_value and 'NULL')
+        name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len', self.default_value and '0')
         name_std = wrapper.declarations.declare_variable("Glib::ustring", self.name + '_std')
         wrapper.call_params.append(name_std)
 
         if self.direction & Parameter.DIRECTION_IN:
             if self.default_value is None:
-                wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
-                wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
-                                               (name_std, name))
+                wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value)
+                wrapper.before_call.write_code('%s = Glib::ustring(std::string(%s, %s));' %
+                                               (name_std, name, name_len))
             else:
-                wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value, optional=True)
-                wrapper.before_call.write_code('%s = %s ? Glib::ustring(%s) : %s;' %
-                                               (name_std, name, name, self.default_value))
+                wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value, optional=True)
+                wrapper.before_call.write_code('%s = %s ? Glib::ustring(std::string(%s, %s)) : %s;' %
+                                               (name_std, name, name, name_len, self.default_value))
 
         if self.direction & Parameter.DIRECTION_OUT:
             wrapper.build_params.add_parameter("s#", ['('+name_std+').c_str()', '('+name_std+').bytes()'])
@@ -348,6 +357,8 @@ class GlibStringPtrParam(PointerParameter):
 
     def convert_c_to_python(self, wrapper):
         assert isinstance(wrapper, ReverseWrapperBase)
+        if self.transfer_ownership:
+            wrapper.before_call.add_cleanup_code("delete %s;" % (self.value,))
         ptr = None
         if self.direction & Parameter.DIRECTION_IN:
             ptr = wrapper.declarations.declare_variable("const char *", self.name + "_ptr")
@@ -361,20 +372,25 @@ class GlibStringPtrParam(PointerParameter):
         if self.direction & Parameter.DIRECTION_OUT:
             if ptr is None:
                 ptr = wrapper.declarations.declare_variable("const char *", self.name + "_ptr")
-            wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], self.value)
+                len_ = wrapper.declarations.declare_variable("Py_ssize_t", self.name + "_len")
+            wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], self.value)
             wrapper.after_call.write_code(
-                "*%s = Glib::ustring(%s);" % (self.value, ptr))
-        if self.transfer_ownership:
-            wrapper.after_call.write_code("delete %s;" % (self.value,))
-
+                "*%s = Glib::ustring(std::string(%s, %s));" % (self.value, ptr, len_))
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
         if self.default_value is not None:
             raise NotSupportedError("default_value not implemented yet")
         name = wrapper.declarations.declare_variable("const char *", self.name)
+        name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len')
+        if self.transfer_ownership and self.direction == Parameter.DIRECTION_IN:
+            # allocated by the call itself: nothing to free when the call is not reached
+            wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value)
+            wrapper.call_params.append('new Glib::ustring(std::string(%s, %s))' % (name, name_len))
+            return
         if self.transfer_ownership:
-            name_std = wrapper.declarations.declare_variable("Glib::ustring*", self.name + '_std', 'new Glib::ustring')
+            name_std = wrapper.declarations.declare_variable("Glib::ustring*", self.name + '_std')
+            wrapper.before_call.write_code("%s = new Glib::ustring;" % name_std)
             wrapper.call_params.append('%s' % name_std)
             name_std_value = '*' + name_std
         else:
@@ -383,9 +399,9 @@ class GlibStringPtrParam(PointerParameter):
             name_std_value = name_std
 
         if self.direction & Parameter.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('et', ['"utf-8"', '&'+name], self.value)
-            wrapper.before_call.write_code('%s = Glib::ustring(%s);' %
-                                           (name_std_value, name))
+            wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value)
+            wrapper.before_call.write_code('%s = Glib::ustring(std::string(%s, %s));' %
+                                           (name_std_value, name, name_len))
 
         if self.direction & Parameter.DIRECTION_OUT:
             wrapper.build_params.add_parameter("s#", ['('+name_std_value+').c_str()', '('+name_std_value+').bytes()'])
@@ -400,9 +416,10 @@ class GlibStringReturn(ReturnValue):
 
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
+        len_ = wrapper.declarations.declare_variable("Py_ssize_t", "retval_len")
+        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], prepend=True)
         wrapper.after_call.write_code(
-            "%s = Glib::ustring(%s);" % (self.value, ptr))
+            "%s = Glib::ustring(std::string(%s, %s));" % (self.value, ptr, len_))
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter("s#", ['(%s).c_str()' % self.value,
-- 
2.43.0


From aca9aafa423f5616a67aa91b88f3f7679383a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 50/50] fix: importing a class with both a type map and a
 wrapper registry declared _cobj twice

---
 pybindgen/wrapper_registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybindgen/wrapper_registry.py b/pybindgen/wrapper_registry.py
index bdc14d6..88c148d 100644
--- a/pybindgen/wrapper_registry.py
+++ b/pybindgen/wrapper_registry.py
@@ -89,6 +89,8 @@ class StdMapWrapperRegistry(WrapperRegistry):
 
     def generate_import(self, code_sink, code_block, module_pyobj_var):
         code_sink.writeln("std::map<void*, PyObject*> *_%s;" % self.map_name)
+        code_block.write_code("{") # the class may import a type map as well
+        code_block.indent()
         code_block.write_code("PyObject *_cobj = PyObject_GetAttrString(%s, (char*) \"_%s\");"
                               % (module_pyobj_var, self.map_name))
         code_block.write_code("if (_cobj == NULL) {\n"
@@ -99,6 +101,8 @@ class StdMapWrapperRegistry(WrapperRegistry):
                               "    Py_DECREF(_cobj);\n"
                               "}"
                               % dict(MAP=self.map_name))
+        code_block.unindent()
+        code_block.write_code("}")
 
     def write_register_new_wrapper(self, code_block, wrapper_lvalue, object_rvalue):
         code_block.write_code("%s[(void *) %s] = (PyObject *) %s;" % (self.map_name, object_rvalue, wrapper_lvalue))
-- 
2.43.0

