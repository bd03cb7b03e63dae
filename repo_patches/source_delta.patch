From d7b2c1338fccd65c25ee4bda3d342e51407b1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 01/37] fix: derive an activity's period indices from the
 current run

An activity that starts after the last period fired from the first period,
one that ends one period before it starts never ended, and the indices of an
earlier run were kept when the clock or the period count changed.
---
 auxi/modelling/business/structure.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 01704da..ea37332 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -88,24 +88,30 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
-        if self.start_period_ix == -1 and self.start_datetime != datetime.min:
+        # The indices depend on the clock and period count of this run only.
+        self.start_period_ix = 0
+        self.period_count = -1
+        if self.start_datetime != datetime.min:
             # Set the Start period index
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
-        if self.start_period_ix == -1:
-            self.start_period_ix = 0
-        if self.period_count == -1 and self.end_datetime != datetime.max:
+            else:
+                # The activity starts on or after the last period.
+                self.start_period_ix = period_count
+                if period_count > 0 and clock.get_datetime_at_period_ix(
+                        period_count - 1) == self.start_datetime:
+                    self.start_period_ix -= 1
+        self.end_period_ix = self.start_period_ix + period_count
+        if self.end_datetime != datetime.max:
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
-                    self.period_count = i - self.start_period_ix
+                    self.period_count = max(i - self.start_period_ix, 0)
+                    self.end_period_ix = self.start_period_ix + \
+                        self.period_count
                     break
-        if self.period_count != -1:
-            self.end_period_ix = self.start_period_ix + self.period_count
-        else:
-            self.end_period_ix = self.start_period_ix + period_count
 
     def get_referenced_accounts(self):
         """
-- 
2.43.0


From 7e46426cec746ce5c2054a7dc21429ee16aef732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 02/37] fix: let interest free, undated and string dated loans
 run to their last payment

A zero interest rate (the documented default) divided by zero, a start given
as a string raised a TypeError, a loan without a start date ended in year 6
and never ran, and month end dates could add a payment after the last one.
---
 auxi/modelling/business/basic.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4b5cdb7..9b0576a 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -175,11 +175,15 @@ class BasicLoanActivity(Activity):
                  description=None):
         """
         """
+        start = self._get_date_(start)
+        end = datetime.max
+        if start != datetime.min:
+            end = start + relativedelta(months=duration+1)
         super(BasicLoanActivity, self).__init__(
             name,
             description=description,
             start=start,
-            end=start + relativedelta(months=duration+1),
+            end=end,
             interval=interval)
         self.bank_account = bank_account
         self.loan_account = loan_account
@@ -193,6 +197,12 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
+        if self.duration <= 0:  # There is nothing to pay back.
+            self._monthly_payment = 0.0
+            return
+        if int_rate == 0:  # An interest free loan.
+            self._monthly_payment = self.amount / self.duration
+            return
         val = (self.amount * int_rate)
         val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
         self._monthly_payment = val
@@ -218,7 +228,8 @@ class BasicLoanActivity(Activity):
 
     def _meet_execution_criteria(self, ix_period):
         return super(BasicLoanActivity, self)._meet_execution_criteria(
-            ix_period) and self.amount > 0 and self.duration > 0
+            ix_period) and self.amount > 0 and self.duration > 0 and \
+            self._months_executed <= self.duration
 
     def prepare_to_run(self, clock, period_count):
         """
-- 
2.43.0


From 40d3a69dca926dbc02f7f39afe3e1280ef8e68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 03/37] fix: close both accounts of a transaction at year end

Only one account of a transaction between two income statement accounts was
closed, and a transaction that debited a revenue account which had not been
credited in that year raised a KeyError.
---
 auxi/modelling/business/structure.py | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index ea37332..b84a992 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -424,39 +424,37 @@ class Entity(NamedObject):
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc in cost_of_sales_accs:
                     if cr_acc in gross_profit_write_off_accs:
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in cost_of_sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.revenue:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] += tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc.account_type == AccountType.revenue:
-                        inc_summary_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.expense:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = -tx.amount
+
+                if dt_acc in sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc in cost_of_sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
+                        inc_summary_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        inc_summary_write_off_accs[dt_acc] = -tx.amount
                 elif dt_acc.account_type == AccountType.expense:
                     if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] += tx.amount
-- 
2.43.0


From 00be7d67b61dc3cb7b54c8c19387979e522c6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 04/37] fix: give a new entity its model's path

The entity and everything below it lacked the model's name in their paths,
and hence in their transactions' sources, until the model was renamed.
---
 auxi/modelling/business/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 0dffa67..41450de 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -74,6 +74,7 @@ class TimeBasedModel(NamedObject):
         """
 
         new_entity = Entity(name, gl_structure, description=description)
+        new_entity.set_parent_path(self.name)
         self.entities.append(new_entity)
         return new_entity
 
-- 
2.43.0


From 344fea614216ffdcb1cb9547a908657630fd97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 05/37] fix: accept a model's start given as a date string

It became a date, which cannot be compared to the datetimes of activities.
---
 auxi/modelling/business/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 41450de..564f57f 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -41,9 +41,12 @@ class TimeBasedModel(NamedObject):
                  start_datetime=datetime.now(),
                  period_duration=TimePeriod.year,
                  period_count=1):
+        if type(start_datetime) is str:
+            start_datetime = datetime.combine(get_date(start_datetime),
+                                              datetime.min.time())
         self.clock = Clock(
             "Clock",
-            start_datetime=get_date(start_datetime),
+            start_datetime=start_datetime,
             timestep_period_duration=period_duration)
         self.period_count = period_count
         self.entities = []
-- 
2.43.0


From c29746ec94f0c68a2ee73747bcd34e1d36cccfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 06/37] fix: keep the sign of an account's first amount in the
 income statement

A credit to an expense account and a debit to a revenue account were added
instead of subtracted when they were the account's first transaction, which
made the statement depend on the order of the transactions.
---
 auxi/modelling/financial/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 73eb595..2e89759 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -276,14 +276,14 @@ class IncomeStatement(Report):
                         if t.cr_account in summedExpenses:
                             summedExpenses[t.cr_account] -= t.amount
                         else:
-                            summedExpenses[t.cr_account] = t.amount
+                            summedExpenses[t.cr_account] = -t.amount
                 if not t.is_closing_cr_account and \
                    not t.is_closing_dt_account and t.dt_account != "":
                     if dt_account_type == AccountType.revenue:
                         if t.dt_account in summedIncome:
                             summedIncome[t.dt_account] -= t.amount
                         else:
-                            summedIncome[t.dt_account] = t.amount
+                            summedIncome[t.dt_account] = -t.amount
                     elif dt_account_type == AccountType.expense:
                         if t.dt_account in summedExpenses:
                             summedExpenses[t.dt_account] += t.amount
-- 
2.43.0


From 30bc950b357ab737caa391e49f939c0fe8b7ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 07/37] fix: filter reports by dates and by datetimes

A report period given as date strings, or left at the report classes'
defaults, could not be compared to transactions dated with datetimes, nor the
ledger methods' defaults to transactions dated with dates.
---
 auxi/modelling/financial/reporting.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 2e89759..b4822bd 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -31,6 +31,18 @@ class ReportType(Enum):
     cash_flow = 4
 
 
+def _on_or_before_(a, b):
+    """
+    Determine whether a is on or before b. When only one of them has a time of
+    day, their dates are compared.
+    """
+
+    if isinstance(a, datetime) != isinstance(b, datetime):
+        a = a.date() if isinstance(a, datetime) else a
+        b = b.date() if isinstance(b, datetime) else b
+    return a <= b
+
+
 class Report(ReportBase):
     """
     Base class for reports.
@@ -105,7 +117,8 @@ class TransactionList(Report):
         for t in sorted(tx_list, key=lambda v: v.tx_date):
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if _on_or_before_(self.start_date, t.tx_date) and \
+               _on_or_before_(t.tx_date, self.end_date):
                 if t.source.endswith(t.name):
                     name = ''
                 else:
@@ -142,7 +155,7 @@ class BalanceSheet(Report):
         summedEquity = {}
 
         for t in self.data_source.transactions:
-            if t.tx_date <= self.end_date:
+            if _on_or_before_(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if cr_account_type == AccountType.asset:
@@ -262,7 +275,8 @@ class IncomeStatement(Report):
         for t in self.data_source.transactions:
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if _on_or_before_(self.start_date, t.tx_date) and \
+               _on_or_before_(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if not t.is_closing_cr_account and \
-- 
2.43.0


From e1a97593a587c8aa97456e7aff7a955580fcd17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 08/37] fix: select a component's transactions by its whole
 path

A report for component 'A/B' contained the transactions of 'A/B2' as well, and
a transaction without a source raised an AttributeError.
---
 auxi/modelling/financial/reporting.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index b4822bd..ca35171 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -43,6 +43,18 @@ def _on_or_before_(a, b):
     return a <= b
 
 
+def _is_from_component_(source, component_path):
+    """
+    Determine whether a transaction source is the component at the specified
+    path, or something below it.
+    """
+
+    if component_path == "":
+        return True
+    return source is not None and \
+        (source + '/').startswith(component_path.rstrip('/') + '/')
+
+
 class Report(ReportBase):
     """
     Base class for reports.
@@ -115,11 +127,11 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
-            if not t.source.startswith(self.component_path):
+            if not _is_from_component_(t.source, self.component_path):
                 continue
             if _on_or_before_(self.start_date, t.tx_date) and \
                _on_or_before_(t.tx_date, self.end_date):
-                if t.source.endswith(t.name):
+                if t.source is not None and t.source.endswith(t.name):
                     name = ''
                 else:
                     name = t.name
@@ -273,7 +285,7 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not t.source.startswith(self.component_path):
+            if not _is_from_component_(t.source, self.component_path):
                 continue
             if _on_or_before_(self.start_date, t.tx_date) and \
                _on_or_before_(t.tx_date, self.end_date):
-- 
2.43.0


From e7a51be73ba1f022641bf0e923164a5cf8bb1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 09/37] fix: add, clear and create empty chem material packages
 as numbers

Adding two packages of one material concatenated their lists of compound
masses, clear() multiplied a list by a float, and the integer zeros of an
empty package could not be added to a package of another material.
---
 auxi/modelling/process/materials/chem.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a4a9d1f..d3787d2 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -173,7 +173,7 @@ class Material(NamedObject):
         :returns: A floating point array.
         """
 
-        return [0] * self.compound_count
+        return [0.0] * self.compound_count
 
     def add_assay(self, name, assay):
         """
@@ -277,7 +277,8 @@ class MaterialPackage(Object):
             if self.material == other.material:
                 result = MaterialPackage(
                     self.material,
-                    self.compound_masses + other.compound_masses)
+                    [a + b for a, b in zip(self.compound_masses,
+                                           other.compound_masses)])
                 return result
             else:  # Packages of different materials.
                 result = self.clone()
@@ -378,7 +379,7 @@ class MaterialPackage(Object):
         Set all the compound masses in the package to zero.
         """
 
-        self.compound_masses *= 0.0
+        self.compound_masses = [0.0] * len(self.compound_masses)
 
     def get_assay(self):
         """
@@ -553,7 +554,9 @@ class MaterialPackage(Object):
 
             # Packages of the same material.
             if self.material == other.material:
-                self.compound_masses += other.compound_masses
+                self.compound_masses = [
+                    a + b for a, b in zip(self.compound_masses,
+                                          other.compound_masses)]
 
             # Packages of different materials.
             else:
-- 
2.43.0


From 846be296ac18400495cb61251372020295966190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 10/37] fix: reject adding an incompatible package before
 changing anything

add_to() raised on the first compound or size class that was not found, after
it had added those before it, and the particle size materials raised a
TypeError while formatting the message.
---
 auxi/modelling/process/materials/chem.py   | 1 +
 auxi/modelling/process/materials/psd.py    | 5 +++--
 auxi/modelling/process/materials/slurry.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index d3787d2..0a7c695 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -568,6 +568,7 @@ class MaterialPackage(Object):
                                         "'. The compound '" + compound +
                                         "' was not found in '" +
                                         self.material.name + "'.")
+                for compound in other.material.compounds:
                     self.add_to((compound, other.get_compound_mass(compound)))
 
         # Add the specified mass of the specified compound.
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 593fe22..cdc3e67 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -290,7 +290,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     result = result + (
                         size_class,
@@ -513,8 +513,9 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
+                for size_class in other.material.size_classes:
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
 
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index eb0a452..f8c3e2e 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -398,7 +398,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name + "'. The size class '" +
-                            size_class + "' was not found in '" +
+                            str(size_class) + "' was not found in '" +
                             self.material.name + "'.")
                     result = result + (
                         size_class, other.get_size_class_mass(size_class))
-- 
2.43.0


From 4dcb13ec54a02c0ff6a37906405f0a6b7aea12ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 11/37] fix: keep slurry packages consistent

Any string was taken as water, adding two packages without solids gave a
density of NaN, a rejected assay replaced the density and water fraction of an
existing one, and the description was dropped.
---
 auxi/modelling/process/materials/slurry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index f8c3e2e..5a022bc 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -74,7 +74,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super(Material, self).__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
@@ -238,11 +238,9 @@ class Material(NamedObject):
 
         if not type(solid_density) is float:
             raise Exception("Invalid solid density. It must be a float.")
-        self.solid_densities[name] = solid_density
 
         if not type(H2O_fraction) is float:
             raise Exception("Invalid H2O fraction. It must be a float.")
-        self.H2O_fractions[name] = H2O_fraction
 
         if not type(assay) is numpy.ndarray:
             raise Exception("Invalid assay. It must be a numpy array.")
@@ -253,6 +251,8 @@ class Material(NamedObject):
         elif name in self.assays.keys():
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
+        self.solid_densities[name] = solid_density
+        self.H2O_fractions[name] = H2O_fraction
         self.assays[name] = assay
 
     def get_assay_total(self, name):
@@ -376,9 +376,11 @@ class MaterialPackage(Object):
         if type(other) is MaterialPackage:
             solid_mass = self.get_solid_mass()
             other_solid_mass = other.get_solid_mass()
-            solid_density = (solid_mass + other_solid_mass) / \
-                (solid_mass / self.solid_density +
-                    other_solid_mass / other.solid_density)
+            solid_density = self.solid_density
+            if solid_mass + other_solid_mass > 0.0:
+                solid_density = (solid_mass + other_solid_mass) / \
+                    (solid_mass / self.solid_density +
+                        other_solid_mass / other.solid_density)
             H2O_mass = self.H2O_mass + other.H2O_mass
             # Packages of the same material.
             if self.material == other.material:
@@ -498,7 +500,7 @@ class MaterialPackage(Object):
             return False
         elif not len(value) == 2:
             return False
-        elif not type(value[0]) is str and not value[0] == "H2O":
+        elif not type(value[0]) is str or not value[0] == "H2O":
             return False
         elif not type(value[1]) is float and \
                 not type(value[1]) is numpy.float64 and \
-- 
2.43.0


From 0908f4556f1f40b820a6f6a5571e83c468897f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 12/37] fix: keep empty packages free of NaN

Adding two empty packages or streams solved for a temperature with 0/0, and
extracting nothing from an empty one turned all of its masses into NaN (or
raised a ZeroDivisionError). The particle size material's description was
dropped.
---
 auxi/modelling/process/materials/chem.py   |  3 ++-
 auxi/modelling/process/materials/psd.py    |  5 +++--
 auxi/modelling/process/materials/slurry.py |  3 ++-
 auxi/modelling/process/materials/thermo.py | 12 ++++++++++--
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 0a7c695..86b4aa2 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -503,7 +503,8 @@ class MaterialPackage(Object):
                 raise Exception('Invalid extraction operation. Cannot extract'
                                 'a mass larger than the package\'s mass.')
 
-            fraction_to_subtract = other / self.get_mass()
+            fraction_to_subtract = other / self.get_mass() \
+                if other != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 [m * fraction_to_subtract for m in self.compound_masses])
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index cdc3e67..63d2383 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -65,7 +65,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super(Material, self).__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
@@ -458,7 +458,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            fraction_to_subtract = other / self.get_mass() \
+                if other != 0.0 else 0.0
             result = MaterialPackage(
                 self.material, self.size_class_masses * fraction_to_subtract)
             self.size_class_masses = self.size_class_masses * (
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 5a022bc..508b6a7 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -641,7 +641,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            fraction_to_subtract = other / self.get_mass() \
+                if other != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 self.solid_density,
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baf7e42..26555ce 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -713,6 +713,10 @@ class MaterialPackage(Object):
         :returns: Temperature. [°C]
         """
 
+        # The enthalpy of nothing says nothing about its temperature.
+        if self.mass == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
@@ -1022,7 +1026,7 @@ class MaterialPackage(Object):
         if mass > self.mass:
             raise Exception("Invalid extraction operation. \
                 Cannot extract a mass larger than the package's mass.")
-        fraction_to_subtract = mass / self.mass
+        fraction_to_subtract = mass / self.mass if mass != 0.0 else 0.0
         result = MaterialPackage(
             self.material, self._compound_masses *
             fraction_to_subtract, self._P, self._T)
@@ -1432,6 +1436,10 @@ class MaterialStream(Object):
         :returns: Temperature. [°C]
         """
 
+        # The enthalpy of nothing says nothing about its temperature.
+        if self.mfr == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
@@ -1770,7 +1778,7 @@ class MaterialStream(Object):
             raise Exception("Invalid extraction operation. Cannot extract a "
                             "mass flow rate larger than the streams's mass "
                             "flow rate.")
-        fraction_to_subtract = mfr / self.mfr
+        fraction_to_subtract = mfr / self.mfr if mfr != 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
             fraction_to_subtract, self._P, self._T)
-- 
2.43.0


From 48b06094136e4f297c24d6d3c1aafd01be89eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 13/37] fix: keep thermo package and stream copies, clears and
 extracts complete

A clone shared its custom properties with the original, a cleared stream kept
its enthalpy flow rate, and extracting a material dropped the pressure.
---
 auxi/modelling/process/materials/thermo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 26555ce..93135b2 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -854,6 +854,7 @@ class MaterialPackage(Object):
 
         result = copy.copy(self)
         result._compound_masses = copy.deepcopy(self._compound_masses)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
@@ -1076,6 +1077,7 @@ class MaterialPackage(Object):
             result += (compound, mass)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
@@ -1600,6 +1602,7 @@ class MaterialStream(Object):
 
         result = copy.copy(self)
         result._compound_mfrs = copy.deepcopy(self._compound_mfrs)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
@@ -1611,7 +1614,7 @@ class MaterialStream(Object):
         self._compound_mfrs = self._compound_mfrs * 0.0
         self._P = 1.0
         self._T = 25.0
-        self._H = 0.0
+        self._Hfr = 0.0
 
     def get_assay(self):
         """
@@ -1849,6 +1852,7 @@ class MaterialStream(Object):
             result += (compound, mfr)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
-- 
2.43.0


From 08450b3debb4f24ab80f29fcf1a2c07e2a0a03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 14/37] fix: leave the composition passed to the Riboud
 viscosity model unchanged

The single cation equivalents were written into the caller's dictionary, which
changed the results of later calculations that used it.
---
 auxi/tools/materialphysicalproperties/slags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 89c76a9..f55e3a8 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -169,6 +169,7 @@ class RiboudViscosityTx(Model):
                          compounds_caf2 + compounds_na2o)
 
         # convert compounds with two cations to single cation equivalents
+        x = dict(x)
         if 'P2O5' in x:
             x['PO2.5'] = 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-- 
2.43.0


From cc0ee58a9bcc5330bfbca607294a52ba934eb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 15/37] fix: validate material states independently of
 concurrent callers

Two threads evaluating one property model shared the validator's document and
errors, so that an invalid state could be accepted and a valid one rejected.
---
 auxi/tools/materialphysicalproperties/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/core.py b/auxi/tools/materialphysicalproperties/core.py
index f19283f..a1c2d55 100644
--- a/auxi/tools/materialphysicalproperties/core.py
+++ b/auxi/tools/materialphysicalproperties/core.py
@@ -8,6 +8,7 @@ import csv
 import os
 import pandas as pd
 import webbrowser
+from copy import copy
 from cerberus import Validator, ValidationError
 from enum import Enum
 
@@ -194,10 +195,12 @@ class Model(Object):
 
         :param **state: The material state
         """
-        if not self.state_validator.validate(state):
+        # A validator keeps the errors of its last use, so do not share it.
+        validator = copy(self.state_validator)
+        if not validator.validate(state):
             msg = f"{self.material} {self.property} model. The state "
             msg += f"description ({state}) contains errors:"
-            for key, value in self.state_validator.errors.items():
+            for key, value in validator.errors.items():
                 msg += ' %s: %s;' % (key, value)
             msg = msg[0:-1]+'.'
             raise ValidationError(msg)
-- 
2.43.0


From 3fc8561868cf3fba7b4796b4f21413cf1986a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 16/37] fix: keep the loaded compounds when reading
 thermochemical data fails

---
 auxi/tools/chemistry/thermochemistry.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 12e1cbb..2931942 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -724,19 +724,22 @@ def load_data_factsage(path=''):
     :param path: Path at which the data files are located.
     """
 
-    compounds.clear()
-
     if path == '':
         path = default_data_path
     if not os.path.exists(path):
+        compounds.clear()
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.txt'))
+    files = sorted(glob.glob(os.path.join(path, 'Compound_*.txt')))
 
+    # Replace the loaded compounds only once all the files have been read.
+    loaded = {}
     for file in files:
         compound = Compound(_read_compound_from_factsage_file_(file))
-        compounds[compound.formula] = compound
+        loaded[compound.formula] = compound
+    compounds.clear()
+    compounds.update(loaded)
 
 
 def load_data_auxi(path=''):
@@ -746,19 +749,22 @@ def load_data_auxi(path=''):
     :param path: Path at which the data files are located.
     """
 
-    compounds.clear()
-
     if path == '':
         path = default_data_path
     if not os.path.exists(path):
+        compounds.clear()
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.json'))
+    files = sorted(glob.glob(os.path.join(path, 'Compound_*.json')))
 
+    # Replace the loaded compounds only once all the files have been read.
+    loaded = {}
     for file in files:
         compound = Compound.read(file)
-        compounds[compound.formula] = compound
+        loaded[compound.formula] = compound
+    compounds.clear()
+    compounds.update(loaded)
 
 
 def list_compounds():
-- 
2.43.0


From 6fa87b13a3e5c01ac243af3522873bc9f10573f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 17/37] fix: read a phase's magnetic data from its dictionary

---
 auxi/tools/chemistry/thermochemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 2931942..0bbd0d7 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -166,15 +166,15 @@ class Phase(NamedObject):
         """[J/mol/K] The standard entropy of the phase at Tref."""
 
         if 'magnetic' in dictionary:
-            self.Tc_mag = ['magnetic']['Tc']
+            self.Tc_mag = dictionary['magnetic']['Tc']
             """The critical temperature, which is the Curie temperature for
             ferromagnetic materials or the Neel temperature for
             antiferromagnetic materials."""
 
-            self.beta0_mag = ['magnetic']['beta0']
+            self.beta0_mag = dictionary['magnetic']['beta0']
             """The average magnetic moment per atom."""
 
-            self.p_mag = ['magnetic']['p']
+            self.p_mag = dictionary['magnetic']['p']
             """This value can be thought of as the fraction of the magnetic
             enthalpy absorbed above the critical. It depends on structure."""
 
-- 
2.43.0


From 152a24c0027d456496f30a98afd5b2855b2a2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 18/37] fix: write objects that format their own strings so
 that they can be read back

---
 auxi/core/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 655998c..d598840 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -36,7 +36,8 @@ class Object(object):
 
     def write(self, path):
         with open(path, 'w') as file:
-            file.write(str(self))
+            # Subclasses may format their strings differently.
+            file.write(Object.__str__(self))
 
     @staticmethod
     def read(path):
-- 
2.43.0


From 9fc25c8e121fd1c66725e178b83af0db17ef852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 19/37] fix: keep references to shared objects intact when
 writing an object

---
 auxi/core/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index d598840..1352eae 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -36,8 +36,10 @@ class Object(object):
 
     def write(self, path):
         with open(path, 'w') as file:
-            # Subclasses may format their strings differently.
-            file.write(Object.__str__(self))
+            # Keep the order of the keys: references to shared objects rely on
+            # it. Subclasses may format their strings differently.
+            file.write(json.dumps(json.loads(jsonpickle.encode(self)),
+                                  indent=4, separators=(',', ': ')))
 
     @staticmethod
     def read(path):
-- 
2.43.0


From 932f9c6f0bda5729e9ad305ec4cc0a24bf6c76b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 20/37] fix: show figures in reports as they are, not rounded
 to six digits

---
 auxi/core/reporting.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/auxi/core/reporting.py b/auxi/core/reporting.py
index 7378b15..eb30ef1 100644
--- a/auxi/core/reporting.py
+++ b/auxi/core/reporting.py
@@ -63,7 +63,8 @@ class Report(Object):
 
         table = self._generate_table_()
         if format == ReportFormat.printout:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(tabulate(table, headers="firstrow", tablefmt="simple",
+                           disable_numparse=True))
         elif format == ReportFormat.latex:
             self._render_latex_(table)
         elif format == ReportFormat.txt:
@@ -71,7 +72,8 @@ class Report(Object):
         elif format == ReportFormat.csv:
             self._render_csv_(table)
         elif format == ReportFormat.string:
-            return str(tabulate(table, headers="firstrow", tablefmt="simple"))
+            return str(tabulate(table, headers="firstrow", tablefmt="simple",
+                                disable_numparse=True))
         elif format == ReportFormat.matplotlib:
             self._render_matplotlib_()
         elif format == ReportFormat.png:
@@ -84,17 +86,21 @@ class Report(Object):
         if self.output_path is not None:
             with open(self.output_path + '.tex', 'w') as f:
                 f.write(
-                    tabulate(table, headers="firstrow", tablefmt="latex"))
+                    tabulate(table, headers="firstrow", tablefmt="latex",
+                             disable_numparse=True))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="latex"))
+            print(tabulate(table, headers="firstrow", tablefmt="latex",
+                           disable_numparse=True))
 
     def _render_txt_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.txt', 'w') as f:
                 f.write(
-                    tabulate(table, headers="firstrow", tablefmt="simple"))
+                    tabulate(table, headers="firstrow", tablefmt="simple",
+                             disable_numparse=True))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(tabulate(table, headers="firstrow", tablefmt="simple",
+                           disable_numparse=True))
 
     def _render_csv_(self, table):
         if self.output_path is not None:
-- 
2.43.0


From 9cf0fd3a2129c383d9b0abb43f2ecb0800ff6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 21/37] fix: find temperatures of small and very large packages
 and streams

The secant search stopped at an absolute enthalpy error of 1e-5 kWh, which
is tens of degrees for a gram of material and unreachable for 1e11 kg, where
it went on until it divided zero by zero.
---
 auxi/modelling/process/materials/thermo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 93135b2..df9c3e8 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -728,10 +728,13 @@ class MaterialPackage(Object):
         y.append(self._calculate_H(x[1]) - H)
 
         # Solve for temperature.
+        tolerance = 1.0e-9*self.mass
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:  # No further improvement is possible.
+                break
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_H(x[i]) - H)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < tolerance:
                 break
 
         return x[len(x) - 1]
@@ -1453,10 +1456,13 @@ class MaterialStream(Object):
         y.append(self._calculate_Hfr(x[1]) - Hfr)
 
         # Solve for temperature.
+        tolerance = 1.0e-9*self.mfr
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:  # No further improvement is possible.
+                break
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_Hfr(x[i]) - Hfr)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < tolerance:
                 break
 
         return x[len(x) - 1]
-- 
2.43.0


From 3cbe0be527baa18b84b095dfa4a348afa654ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 22/37] fix: create thermo packages and streams from assays
 added later

Only assays of the material's file have custom properties; looking up those
of an assay added with add_assay raised a KeyError.
---
 auxi/modelling/process/materials/thermo.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index df9c3e8..307d985 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -255,13 +255,12 @@ class Material(NamedObject):
         return sorted(list(element_set))
 
     def _isCoal(self, assay):
-        if 'IsCoal' in self.custom_properties and \
-           self.assay_custom_properties[assay].get('IsCoal', 0) == 1:
-            return True
-        return False
+        properties = self.assay_custom_properties.get(assay, {})
+        return properties.get('IsCoal', 0) == 1
 
     def _get_HHV(self, assay):
-        return self.assay_custom_properties[assay].get('HHV[MJ/kg]', None)
+        properties = self.assay_custom_properties.get(assay, {})
+        return properties.get('HHV[MJ/kg]', None)
 
     def get_compound_index(self, compound):
         """
-- 
2.43.0


From cf978a7f1495c67b02767a9ca0dab8bbe814027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 23/37] fix: calculate the element mass flow rates of streams

The list of mass fractions was multiplied with a number, which raised a
TypeError for every stream.
---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 307d985..5e80cd6 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1703,7 +1703,7 @@ class MaterialStream(Object):
         result = numpy.zeros(len(elements))
         for compound in self.material.compounds:
             result += self.get_compound_mfr(compound) *\
-                stoich.element_mass_fractions(compound, elements)
+                numpy.array(stoich.element_mass_fractions(compound, elements))
         return result
 
     def get_element_mfr_dictionary(self):
-- 
2.43.0


From 36ef268bb7ec82111f0fcd7346cc34b221f60b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 24/37] fix: evaluate natural convection independently of
 concurrent callers

---
 .../heattransfer/naturalconvection.py         | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index ead2065..657f312 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -280,6 +280,21 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
     def _Nu_x__9_23(self, Ra, Pr):
         return 0.1 * Ra**(1/3.0)
 
+    def _calc_Tr(self, Ts, Tf):
+        """
+        Calculate the temperature at which the fluid properties are evaluated.
+
+        :param Ts: [K] heat transfer surface temperature
+        :param Tf: [K] bulk fluid temperature
+
+        :returns: [K] float
+        """
+
+        if self._isgas:
+            return Ts - 0.38 * (Ts - Tf)
+        else:  # for liquids
+            return Ts - 0.5 * (Ts - Tf)
+
     def Nu_x(self, L, theta, Ts, **statef):
         """
         Calculate the local Nusselt number.
@@ -295,12 +310,14 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         Tf = statef['T']
         thetar = radians(theta)
 
+        # Do not rely on self.Tr, another caller may be using this object too.
+        Tr = self._calc_Tr(Ts, Tf)
+        self.Tr = Tr
+
         if self._isgas:
-            self.Tr = Ts - 0.38 * (Ts - Tf)
             beta = self._fluid.beta(T=Tf)
         else:  # for liquids
-            self.Tr = Ts - 0.5 * (Ts - Tf)
-            beta = self._fluid.beta(T=self.Tr)
+            beta = self._fluid.beta(T=Tr)
 
         if Ts > Tf:  # hot surface
             if 0.0 < theta < 45.0:
@@ -313,8 +330,8 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
             else:
                 g = const.g
 
-        nu = self._fluid.nu(T=self.Tr)
-        alpha = self._fluid.alpha(T=self.Tr)
+        nu = self._fluid.nu(T=Tr)
+        alpha = self._fluid.alpha(T=Tr)
 
         Gr = dq.Gr(L, Ts, Tf, beta, nu, g)
         Pr = dq.Pr(nu, alpha)
@@ -352,7 +369,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         """
 
         Nu_x = self.Nu_x(L, theta, Ts, **statef)
-        k = self._fluid.k(T=self.Tr)
+        k = self._fluid.k(T=self._calc_Tr(Ts, statef['T']))
         return Nu_x * k / L
 
     def h_L(self, L, theta, Ts, **statef):
@@ -368,7 +385,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         """
 
         Nu_L = self.Nu_L(L, theta, Ts, **statef)
-        k = self._fluid.k(T=self.Tr)
+        k = self._fluid.k(T=self._calc_Tr(Ts, statef['T']))
         return Nu_L * k / L
 
     def plot_regions(self):
-- 
2.43.0


From bae9160c06a7402e6f28d5cf60d861af75e1a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 25/37] fix: look up a missing sub account as None, as
 documented

---
 auxi/modelling/financial/des.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index e8b530e..3b8ec01 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -56,7 +56,11 @@ class GeneralLedgerAccount(NamedObject):
         super(GeneralLedgerAccount, self).__init__(name, description)
 
     def __getitem__(self, key):
-        return [a for a in self.accounts if a.name == key][0]
+        items = [a for a in self.accounts if a.name == key]
+        if len(items) == 0:
+            return None
+        else:
+            return items[0]
 
     def __missing__(self, key):
         return None
-- 
2.43.0


From ec9d701904111065ddd3b68f1fceb2c037341657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 26/37] fix: keep packages, streams and loans as they were when
 a value is refused

---
 auxi/modelling/business/basic.py           | 23 +++++++++++-----------
 auxi/modelling/process/materials/thermo.py | 12 +++++++----
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 9b0576a..ef3dcdd 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -195,17 +195,13 @@ class BasicLoanActivity(Activity):
         self._months_executed = 0
         self._amount_left = amount
 
-    def _update_monthly_payment_(self):
-        int_rate = self._monthly_interest_rate
+    def _get_monthly_payment_(self, amount, int_rate):
         if self.duration <= 0:  # There is nothing to pay back.
-            self._monthly_payment = 0.0
-            return
+            return 0.0
         if int_rate == 0:  # An interest free loan.
-            self._monthly_payment = self.amount / self.duration
-            return
-        val = (self.amount * int_rate)
-        val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
-        self._monthly_payment = val
+            return amount / self.duration
+        val = (amount * int_rate)
+        return val / (1 - (1 / pow((1 + int_rate), self.duration)))
 
     @property
     def amount(self):
@@ -213,8 +209,9 @@ class BasicLoanActivity(Activity):
 
     @amount.setter
     def amount(self, value):
+        self._monthly_payment = self._get_monthly_payment_(
+            value, self._monthly_interest_rate)
         self._amount = value
-        self._update_monthly_payment_()
 
     @property
     def interest_rate(self):
@@ -222,9 +219,11 @@ class BasicLoanActivity(Activity):
 
     @interest_rate.setter
     def interest_rate(self, value):
+        int_rate = value / 12.0
+        self._monthly_payment = self._get_monthly_payment_(
+            self.amount, int_rate)
         self._interest_rate = value
-        self._monthly_interest_rate = value / 12.0
-        self._update_monthly_payment_()
+        self._monthly_interest_rate = int_rate
 
     def _meet_execution_criteria(self, ix_period):
         return super(BasicLoanActivity, self)._meet_execution_criteria(
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 5e80cd6..7db4a01 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -805,8 +805,9 @@ class MaterialPackage(Object):
         :param H: The new enthalpy value. [kWh]
         """
 
+        T = self._calculate_T(H)
         self._H = H
-        self._T = self._calculate_T(H)
+        self._T = T
 
     @property
     def T(self):
@@ -827,8 +828,9 @@ class MaterialPackage(Object):
         :param T: Temperature. [°C]
         """
 
+        H = self._calculate_H(T)
         self._T = T
-        self._H = self._calculate_H(T)
+        self._H = H
 
     @property
     def P(self):
@@ -1533,8 +1535,9 @@ class MaterialStream(Object):
         :param H: The new enthalpy flow rate value. [kWh/h]
         """
 
+        T = self._calculate_T(Hfr)
         self._Hfr = Hfr
-        self._T = self._calculate_T(Hfr)
+        self._T = T
 
     @property
     def T(self):
@@ -1555,8 +1558,9 @@ class MaterialStream(Object):
         :param T: Temperature. [°C]
         """
 
+        Hfr = self._calculate_Hfr(T)
         self._T = T
-        self._Hfr = self._calculate_Hfr(T)
+        self._Hfr = Hfr
 
     @property
     def HHV(self):
-- 
2.43.0


From bcba6df6dbdcaedf5508db6d1a408f86a567d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 27/37] fix: print materials with custom properties and assays
 added later

---
 auxi/modelling/process/materials/thermo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 7db4a01..b309305 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -209,9 +209,11 @@ class Material(NamedObject):
                 pad = ''
                 result += prop.ljust(20)
                 for assay_name in assay_names:
-                    result += pad + "{:.8e}".format(
-                        self.assay_custom_properties[assay_name][prop]
-                        ).rjust(15)
+                    # Assays that were added later do not have any.
+                    values = self.assay_custom_properties.get(assay_name, {})
+                    value = "{:.8e}".format(values[prop]) \
+                        if prop in values else ""
+                    result += pad + value.rjust(15)
                     pad = '  '
                 result += "\n"
         result += "=" * line_length + "\n"
-- 
2.43.0


From f7c0d369f22a3fab5ad55974be570f999b480cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 28/37] fix: fail when a thermochemical data directory cannot
 be listed

---
 auxi/tools/chemistry/thermochemistry.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 0bbd0d7..4277b0a 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -6,7 +6,6 @@ calculations.
 
 import os
 import sys
-import glob
 import math
 import warnings
 import json
@@ -717,6 +716,20 @@ def write_compound_to_auxi_file(directory, compound):
         f.write(str(compound))
 
 
+def _get_data_files_(path, extension):
+    """
+    List the compound data files located at a path.
+
+    :param path: Path at which the data files are located.
+    :param extension: Extension of the data files.
+
+    :returns: Sorted list of file paths.
+    """
+
+    return [os.path.join(path, name) for name in sorted(os.listdir(path))
+            if name.startswith('Compound_') and name.endswith(extension)]
+
+
 def load_data_factsage(path=''):
     """
     Load all the thermochemical data factsage files located at a path.
@@ -731,7 +744,7 @@ def load_data_factsage(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = sorted(glob.glob(os.path.join(path, 'Compound_*.txt')))
+    files = _get_data_files_(path, '.txt')
 
     # Replace the loaded compounds only once all the files have been read.
     loaded = {}
@@ -756,7 +769,7 @@ def load_data_auxi(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = sorted(glob.glob(os.path.join(path, 'Compound_*.json')))
+    files = _get_data_files_(path, '.json')
 
     # Replace the loaded compounds only once all the files have been read.
     loaded = {}
-- 
2.43.0


From 3b714cfec5b8c2be56b1927b23f7cb41eb7d8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 29/37] fix: read factsage phases that have one record each

---
 auxi/tools/chemistry/thermochemistry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 4277b0a..4575c1d 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -587,6 +587,7 @@ def _read_compound_from_factsage_file_(file_name):
             phase = strings[0]
             if phase != phaseold:  # new phase detected
                 phaseold = phase
+                recordold = '0'
                 ph = phs[phase] = {}
                 ph['Symbol'] = phase
                 ph['DHref'] = float(strings[2])
-- 
2.43.0


From f162094bef329429afd960b2f4875c638ea5ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 30/37] fix: plot on a figure of its own and close it

---
 auxi/tools/materialphysicalproperties/core.py     | 15 +++++++++++++++
 auxi/tools/materialphysicalproperties/gases.py    | 13 ++++---------
 auxi/tools/materialphysicalproperties/idealgas.py |  6 ++----
 .../materialphysicalproperties/polynomial.py      |  6 ++----
 4 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/core.py b/auxi/tools/materialphysicalproperties/core.py
index a1c2d55..bfa3bf9 100644
--- a/auxi/tools/materialphysicalproperties/core.py
+++ b/auxi/tools/materialphysicalproperties/core.py
@@ -6,8 +6,10 @@ This module provides tools for calculating material physical properties.
 
 import csv
 import os
+import matplotlib.pyplot as plt
 import pandas as pd
 import webbrowser
+from contextlib import contextmanager
 from copy import copy
 from cerberus import Validator, ValidationError
 from enum import Enum
@@ -25,6 +27,19 @@ __email__ = 'johan.zietsman@ex-mente.co.za'
 __status__ = 'Planning'
 
 
+@contextmanager
+def new_figure():
+    """
+    Create a figure for a single plot, and close it whether plotting succeeds
+    or not. Other figures are left alone.
+    """
+    fig = plt.figure()
+    try:
+        yield fig
+    finally:
+        plt.close(fig)
+
+
 class StateOfMatter(Enum):
     unknown = 0
     solid = 1
diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4844129..ba8056c 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -17,6 +17,7 @@ import numpy as np
 
 from auxi.tools.chemistry.stoichiometry import molar_mass as M
 from auxi.tools.materialphysicalproperties.core import DataSet, Model
+from auxi.tools.materialphysicalproperties.core import new_figure
 from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
 from auxi.tools.materialphysicalproperties.idealgas import \
     BetaT as IgBetaT, RhoT as IgRhoT
@@ -469,7 +470,7 @@ class WilkeMuTx(Model):
         return result  # [Pa.s]
 
     def plot(self, xs, datasets, path, show=False):
-        with PdfPages(path) as pdf:
+        with PdfPages(path) as pdf, new_figure() as fig:
             T_min = 1.0e100
             T_max = -1.0e100
 
@@ -494,9 +495,7 @@ class WilkeMuTx(Model):
 
             plt.ylabel('$%s$ (%s)' % (self.display_symbol, self.units))
 
-            fig = plt.gcf()
             pdf.savefig(fig)
-            plt.close()
 
         if show:
             webbrowser.open_new(path)
@@ -552,7 +551,7 @@ class HerningZippererMuTx(Model):
         return result  # [Pa.s]
 
     def plot(self, xs, datasets, path, show=False):
-        with PdfPages(path) as pdf:
+        with PdfPages(path) as pdf, new_figure() as fig:
             T_min = 1.0e100
             T_max = -1.0e100
 
@@ -577,9 +576,7 @@ class HerningZippererMuTx(Model):
 
             plt.ylabel('$%s$ (%s)' % (self.display_symbol, self.units))
 
-            fig = plt.gcf()
             pdf.savefig(fig)
-            plt.close()
 
         if show:
             webbrowser.open_new(path)
@@ -633,7 +630,7 @@ class IdealCpTx(Model):
         return result  # [Pa.s]
 
     def plot(self, xs, datasets, path, show=False):
-        with PdfPages(path) as pdf:
+        with PdfPages(path) as pdf, new_figure() as fig:
             T_min = 1.0e100
             T_max = -1.0e100
 
@@ -658,9 +655,7 @@ class IdealCpTx(Model):
 
             plt.ylabel("$%s$ (%s)" % (self.display_symbol, self.units))
 
-            fig = plt.gcf()
             pdf.savefig(fig)
-            plt.close()
 
         if show:
             webbrowser.open_new(path)
diff --git a/auxi/tools/materialphysicalproperties/idealgas.py b/auxi/tools/materialphysicalproperties/idealgas.py
index 6a3f5fe..2e6b0a4 100644
--- a/auxi/tools/materialphysicalproperties/idealgas.py
+++ b/auxi/tools/materialphysicalproperties/idealgas.py
@@ -8,7 +8,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 
 
-from auxi.tools.materialphysicalproperties.core import Model
+from auxi.tools.materialphysicalproperties.core import Model, new_figure
 from auxi.tools.physicalconstants import R
 from auxi.tools.chemistry.stoichiometry import molar_mass as mm
 
@@ -84,7 +84,7 @@ class RhoT(Model):
         return self.mm * self.P / R / state["T"]
 
     def plot(self, datasets, path, show=False):
-        with PdfPages(path) as pdf:
+        with PdfPages(path) as pdf, new_figure() as fig:
             x_min = 1.0e100
             x_max = -1.0e100
 
@@ -110,9 +110,7 @@ class RhoT(Model):
 
             plt.ylabel("$%s$ (%s)" % (self.display_symbol, self.units))
 
-            fig = plt.gcf()
             pdf.savefig(fig)
-            plt.close()
 
         if show:
             webbrowser.open_new(path)
diff --git a/auxi/tools/materialphysicalproperties/polynomial.py b/auxi/tools/materialphysicalproperties/polynomial.py
index 1e2ad30..dab8296 100644
--- a/auxi/tools/materialphysicalproperties/polynomial.py
+++ b/auxi/tools/materialphysicalproperties/polynomial.py
@@ -9,7 +9,7 @@ from matplotlib.backends.backend_pdf import PdfPages
 import webbrowser
 from cerberus import Validator, ValidationError
 
-from auxi.tools.materialphysicalproperties.core import Model
+from auxi.tools.materialphysicalproperties.core import Model, new_figure
 
 
 __version__ = '0.3.6'
@@ -89,7 +89,7 @@ class PolynomialModelT(Model):
         return np.polyval(self._coeffs, state['T'])
 
     def plot(self, datasets, path, show=False):
-        with PdfPages(path) as pdf:
+        with PdfPages(path) as pdf, new_figure() as fig:
             x_min = 1.0e100
             x_max = -1.0e100
 
@@ -116,9 +116,7 @@ class PolynomialModelT(Model):
 
             plt.ylabel('$%s$ (%s)' % (self.display_symbol, self.units))
 
-            fig = plt.gcf()
             pdf.savefig(fig)
-            plt.close()
 
         if show:
             webbrowser.open_new(path)
-- 
2.43.0


From 628f09712673c0b68745912645ebce28fbd18e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 31/37] fix: order and close transactions dated without a time

---
 auxi/modelling/business/structure.py  |  5 ++++-
 auxi/modelling/financial/reporting.py | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index b84a992..994bd6c 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -413,7 +413,10 @@ class Entity(NamedObject):
             cost_of_sales_accs = gls.get_account_descendants(gls._acci_cos_)
             year_taxes = []
             for tx in self.gl.transactions:
-                if year_start_date <= tx.tx_date <= year_end_date:
+                tx_date = tx.tx_date
+                if not isinstance(tx_date, datetime):  # A date, without time.
+                    tx_date = datetime.combine(tx_date, datetime.min.time())
+                if year_start_date <= tx_date <= year_end_date:
                     year_taxes.append(tx)
             for tx in year_taxes:
                 cr_acc = gls.get_account(tx.cr_account)
diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index ca35171..3154786 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -43,6 +43,16 @@ def _on_or_before_(a, b):
     return a <= b
 
 
+def _as_datetime_(value):
+    """
+    Convert a date to the first instant of its day. A datetime stays as it is.
+    """
+
+    if isinstance(value, datetime):
+        return value
+    return datetime.combine(value, datetime.min.time())
+
+
 def _is_from_component_(source, component_path):
     """
     Determine whether a transaction source is the component at the specified
@@ -126,7 +136,7 @@ class TransactionList(Report):
                   "Credit Account", "Amount", "Description"]]
         amount_tot = 0
         tx_list = self.data_source.transactions
-        for t in sorted(tx_list, key=lambda v: v.tx_date):
+        for t in sorted(tx_list, key=lambda v: _as_datetime_(v.tx_date)):
             if not _is_from_component_(t.source, self.component_path):
                 continue
             if _on_or_before_(self.start_date, t.tx_date) and \
-- 
2.43.0


From 498803bc817991a3230a9c003e315ed4f8e99eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 32/37] fix: close a year with the transactions of its last
 second

---
 auxi/modelling/business/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 994bd6c..6de8acc 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -416,7 +416,7 @@ class Entity(NamedObject):
                 tx_date = tx.tx_date
                 if not isinstance(tx_date, datetime):  # A date, without time.
                     tx_date = datetime.combine(tx_date, datetime.min.time())
-                if year_start_date <= tx_date <= year_end_date:
+                if year_start_date <= tx_date < self._prev_year_end_datetime:
                     year_taxes.append(tx)
             for tx in year_taxes:
                 cr_acc = gls.get_account(tx.cr_account)
-- 
2.43.0


From 4f2737ba9626fbf0d91a9090d156cd17ebe4fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 33/37] fix: keep the energy of coal streams that are split,
 emptied or mixed

Extracting a mass flow rate of coal gave a stream that was no coal, an
emptied coal stream had NaN enthalpy, the heating value of a stream to or
from which ash or an element was added or extracted was wrong, and coals of
different materials lost the heating value of one of them.
---
 auxi/modelling/process/materials/thermo.py | 53 ++++++++++++++--------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index b309305..a83c72d 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1208,19 +1208,20 @@ class MaterialStream(Object):
 
         # Add another stream.
         if type(other) is MaterialStream:
-            if self.material == other.material:  # Streams of same material.
-                if self.isCoal or other.isCoal:
-                    HHV = 0
-                    if self.HHV:
-                        HHV += self.HHV * self.mfr
-                    if other.HHV:
-                        HHV += other.HHV * other.mfr
+            if self.isCoal or other.isCoal:
+                HHV = 0
+                if self.HHV:
+                    HHV += self.HHV * self.mfr
+                if other.HHV:
+                    HHV += other.HHV * other.mfr
+                if self.mfr + other.mfr > 0.0:
                     HHV /= self.mfr + other.mfr
-                    isCoal = True
-                else:
-                    isCoal = False
-                    HHV = None
+                isCoal = True
+            else:
+                isCoal = False
+                HHV = None
 
+            if self.material == other.material:  # Streams of same material.
                 result = MaterialStream(self.material,
                                          self._compound_mfrs +
                                          other._compound_mfrs, isCoal=isCoal, HHV=HHV)
@@ -1240,6 +1241,8 @@ class MaterialStream(Object):
                                         self.material.name + "'.")
                     result = result + (compound,
                                        other.get_compound_mfr(compound))
+                result.isCoal = isCoal
+                result.HHV = HHV
                 result.Hfr = Hfr
                 return result
 
@@ -1271,6 +1274,7 @@ class MaterialStream(Object):
             # Create the result stream.
             result = self * 1.0
             result._compound_mfrs[index] += mfr
+            result._update_HHV(compound, mfr)
             result.Hfr = self._Hfr + enthalpy
             result._P = self._P
             return result
@@ -1361,6 +1365,8 @@ class MaterialStream(Object):
                 Hin += thermo.H(compound, T, self._compound_mfrs[index])
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg
+        if m_total == 0.0:  # Nothing that burns.
+            return 0.0
 
         Hout = 0.0  # kWh
         Hout += thermo.H('CO2[G]', T, cc(m_C, 'C', 'CO2', 'C'))
@@ -1416,6 +1422,8 @@ class MaterialStream(Object):
                 Hfr += dHfr
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg/h
+        if m_total == 0.0:  # Nothing but ash.
+            return Hfr
         y_C = m_C / m_total
         y_H = m_H / m_total
         y_O = m_O / m_total
@@ -1795,7 +1803,7 @@ class MaterialStream(Object):
         fraction_to_subtract = mfr / self.mfr if mfr != 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_mfrs = self._compound_mfrs * \
             (1.0 - fraction_to_subtract)
@@ -1826,14 +1834,19 @@ class MaterialStream(Object):
         if self.isCoal:
             HHV = self.HHV * (self.mfr - mfr)  # MJ
 
-            dH = thermo.H(compound, 25, mfr)  # kWh
-            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'COs', 'C'))  # kWh
-            dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))  # kWh
-            dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))  # kWh
-            dH *= 3.6  # MJ
-
-            HHV += dH  # MJ
-            HHV /= self.mfr  # MJ/kg coal
+            # Only the elements of the daf coal burn, the rest is ash.
+            formula = compound.split('[')[0]
+            if any(stoich.element_mass_fraction(formula, e) == 1.0
+                   for e in 'CHONS'):
+                dH = thermo.H(compound, 25, mfr)  # kWh
+                dH -= thermo.H('CO2[G]', 25, cc(mfr, formula, 'CO2', 'C'))
+                dH -= thermo.H('H2O[L]', 25, cc(mfr, formula, 'H2O', 'H'))
+                dH -= thermo.H('SO2[G]', 25, cc(mfr, formula, 'SO2', 'S'))
+                dH *= 3.6  # MJ
+                HHV += dH  # MJ
+
+            if self.mfr > 0.0:
+                HHV /= self.mfr  # MJ/kg coal
 
             self.HHV = HHV
 
-- 
2.43.0


From 5b978bdc772fd33c8522d854f9060557fcac06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 34/37] fix: recalculate the instalment and end of a loan whose
 duration is changed

---
 auxi/modelling/business/basic.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index ef3dcdd..2dafc5e 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -189,19 +189,19 @@ class BasicLoanActivity(Activity):
         self.loan_account = loan_account
         self.interest_account = interest_account
         self._amount = amount
-        self.duration = duration
+        self._duration = duration
         self.interest_rate = interest_rate
 
         self._months_executed = 0
         self._amount_left = amount
 
-    def _get_monthly_payment_(self, amount, int_rate):
-        if self.duration <= 0:  # There is nothing to pay back.
+    def _get_monthly_payment_(self, amount, int_rate, duration):
+        if duration <= 0:  # There is nothing to pay back.
             return 0.0
         if int_rate == 0:  # An interest free loan.
-            return amount / self.duration
+            return amount / duration
         val = (amount * int_rate)
-        return val / (1 - (1 / pow((1 + int_rate), self.duration)))
+        return val / (1 - (1 / pow((1 + int_rate), duration)))
 
     @property
     def amount(self):
@@ -210,9 +210,23 @@ class BasicLoanActivity(Activity):
     @amount.setter
     def amount(self, value):
         self._monthly_payment = self._get_monthly_payment_(
-            value, self._monthly_interest_rate)
+            value, self._monthly_interest_rate, self.duration)
         self._amount = value
 
+    @property
+    def duration(self):
+        return self._duration
+
+    @duration.setter
+    def duration(self, value):
+        payment = self._get_monthly_payment_(
+            self.amount, self._monthly_interest_rate, value)
+        if self.start_datetime != datetime.min:
+            self.end_datetime = self.start_datetime + relativedelta(
+                months=value+1)
+        self._monthly_payment = payment
+        self._duration = value
+
     @property
     def interest_rate(self):
         return self._interest_rate
@@ -221,7 +235,7 @@ class BasicLoanActivity(Activity):
     def interest_rate(self, value):
         int_rate = value / 12.0
         self._monthly_payment = self._get_monthly_payment_(
-            self.amount, int_rate)
+            self.amount, int_rate, self.duration)
         self._interest_rate = value
         self._monthly_interest_rate = int_rate
 
-- 
2.43.0


From ab7f9ab61a33be308870ac5ad19b45e642ebc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:14 +0000
Subject: [PATCH 35/37] fix: keep names and paths when a rename is refused

---
 auxi/modelling/business/models.py    |  7 ++-----
 auxi/modelling/business/structure.py | 18 ++++++++++++------
 auxi/modelling/financial/des.py      | 14 ++++++++------
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 564f57f..8d90aaf 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -52,18 +52,15 @@ class TimeBasedModel(NamedObject):
         self.entities = []
         super(TimeBasedModel, self).__init__(name, description=description)
 
-    def _update_childrens_parent_path(self):
-        for e in self.entities:
-            e.set_parent_path(self.name)
-
     @property
     def name(self):
         return self._name
 
     @name.setter
     def name(self, value):
+        for e in self.entities:
+            e.set_parent_path(value)
         self._name = value
-        self._update_childrens_parent_path()
 
     def create_entity(self, name, gl_structure, description=None):
         """
diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 6de8acc..c039d6e 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -60,8 +60,9 @@ class Activity(NamedObject):
         :param value: The path to the object's parent
         """
 
+        path = value + r'/' + self.name
         self._parent_path = value
-        self.path = value + r'/' + self.name
+        self.path = path
 
     @property
     def name(self):
@@ -69,8 +70,9 @@ class Activity(NamedObject):
 
     @name.setter
     def name(self, value):
+        path = self._parent_path + r'/' + value
         self._name = value
-        self.path = self._parent_path + r'/' + self.name
+        self.path = path
 
     def _meet_execution_criteria(self, ix_period):
         if self.interval != 0 and (ix_period+1) % self.interval != 0:
@@ -153,8 +155,9 @@ class Component(NamedObject):
         :param value: The path to the object's parent.
         """
 
+        path = value + r'/' + self.name
         self._parent_path = value
-        self.path = value + r'/' + self.name
+        self.path = path
         self._update_childrens_parent_path()
 
     def _update_childrens_parent_path(self):
@@ -169,8 +172,9 @@ class Component(NamedObject):
 
     @name.setter
     def name(self, value):
+        path = self._parent_path + r'/' + value
         self._name = value
-        self.path = self._parent_path + r'/' + self.name
+        self.path = path
         self._update_childrens_parent_path()
 
     def create_component(self, name, description=None):
@@ -305,8 +309,9 @@ class Entity(NamedObject):
         :param value: The path to the object's parent
         """
 
+        path = value + r'/' + self.name
         self._parent_path = value
-        self.path = value + r'/' + self.name
+        self.path = path
         self._update_childrens_parent_path()
 
     def _update_childrens_parent_path(self):
@@ -319,8 +324,9 @@ class Entity(NamedObject):
 
     @name.setter
     def name(self, value):
+        path = self._parent_path + r'/' + value
         self._name = value
-        self.path = self._parent_path + r'/' + self.name
+        self.path = path
         self._update_childrens_parent_path()
 
     def create_component(self, name, description=None):
diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index 3b8ec01..e03585f 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -72,8 +72,9 @@ class GeneralLedgerAccount(NamedObject):
         :param value: The path to the object's parent
         """
 
+        path = value + r'/' + self.name
         self._parent_path = value
-        self.path = value + r'/' + self.name
+        self.path = path
         self._update_childrens_parent_path()
 
     def _update_childrens_parent_path(self):
@@ -86,12 +87,13 @@ class GeneralLedgerAccount(NamedObject):
 
     @name.setter
     def name(self, value):
-        self._name = value
+        path = value
         if self._parent_path != "":
-            self.path = self._parent_path + r'/' + self.name
-        else:
-            self.path = self.name
-        self._update_childrens_parent_path()
+            path = self._parent_path + r'/' + value
+        for a in self.accounts:
+            a.set_parent_path(path)
+        self._name = value
+        self.path = path
 
     def create_account(self, name, number=None, description=None):
         """
-- 
2.43.0


From 7a8d732a27247c1aee110b93cce54f74c612d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:45 +0000
Subject: [PATCH 36/37] fix: only accounts below Cost of Sales are cost of
 sales in the income statement

---
 auxi/modelling/financial/reporting.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 3154786..e6fb989 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -327,6 +327,15 @@ class IncomeStatement(Report):
                             summedExpenses[t.dt_account] = t.amount
         return summedIncome, summedExpenses
 
+    def _is_cost_of_sales_(self, account_path):
+        """
+        Determine whether an account is the cost of sales account of the
+        structure, or below it.
+        """
+
+        cos_path = self.data_source.structure._acci_cos_.path
+        return (account_path + '/').startswith(cos_path + '/')
+
     def _generate_table_(self):
         summedIncome, summedExpenses = self._sum_amounts_per_account_()
 
@@ -344,7 +353,7 @@ class IncomeStatement(Report):
         table.append(["-------------", "", ""])
         cos_sum = 0
         for entry in summedExpenses:
-            if entry.startswith('Cost of Sales'):
+            if self._is_cost_of_sales_(entry):
                 cos_sum += summedExpenses[entry]
                 table.append([entry, "%.2f" % summedExpenses[entry], ""])
         table.append(["", "", "--------"])
@@ -355,7 +364,7 @@ class IncomeStatement(Report):
         table.append(["Expenses", "", ""])
         table.append(["--------", "", ""])
         for entry in summedExpenses:
-            if not entry.startswith('Cost of Sales'):
+            if not self._is_cost_of_sales_(entry):
                 table.append([entry, "%.2f" % summedExpenses[entry], ""])
         table.append(["", "--------", ""])
         table.append(["Total Expenses", "%.2f" % (sum_expenses - cos_sum), ""])
-- 
2.43.0


From 23e12d4750673bc386afaa8c3145ffae7244195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:50 +0000
Subject: [PATCH 37/37] fix: financial years of a model that starts on a leap
 day end on its anniversaries

---
 auxi/modelling/business/structure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index c039d6e..1278594 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -409,7 +409,10 @@ class Entity(NamedObject):
                 timedelta(seconds=-1)
 
             self._prev_year_end_datetime = self._curr_year_end_datetime
-            self._curr_year_end_datetime += relativedelta(years=1)
+            # Count the years from the start, which may be a leap day.
+            self._curr_year_end_datetime = clock.start_datetime + \
+                relativedelta(years=self._prev_year_end_datetime.year -
+                              clock.start_datetime.year + 1)
             if self._curr_year_end_datetime > self._exec_year_end_datetime:
                 self._curr_year_end_datetime = self._exec_year_end_datetime
 
-- 
2.43.0

