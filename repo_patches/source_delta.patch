From 4c31abb375ea22c31cf5d8821ea21c1b281de0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:36 +0000
Subject: [PATCH 01/42] fix: take an overlay off the stack before running its
 close callbacks

A close callback that opens, closes or clears overlays changed the stack
under the pending removal, so a different overlay was removed or the
callback recursed without end.
---
 .../src/stores/overlay-callback-store.ts      | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/packages/vlossom/src/stores/overlay-callback-store.ts b/packages/vlossom/src/stores/overlay-callback-store.ts
index 2aaf40d..4f1de02 100644
--- a/packages/vlossom/src/stores/overlay-callback-store.ts
+++ b/packages/vlossom/src/stores/overlay-callback-store.ts
@@ -53,6 +53,12 @@ export class OverlayCallbackStore {
         return await callbacks.value[eventName]?.(...args);
     }
 
+    private runClose([, callbacks]: OverlayTuple, ...args: any[]) {
+        const invoke = async (eventName: string) => await callbacks.value[eventName]?.(...args);
+        invoke(OVERLAY_CLOSE);
+        return invoke('close');
+    }
+
     public push(id: string, callbacks: Ref<OverlayCallbacks>) {
         this._overlays.value.push([id, callbacks]);
         this.run(id, OVERLAY_OPEN);
@@ -64,12 +70,9 @@ export class OverlayCallbackStore {
         if (!overlay) {
             return;
         }
-        const [targetId] = overlay;
-        this.run(targetId, OVERLAY_CLOSE, ...args);
-        const result = this.run(targetId, 'close', ...args);
+        // take the overlay off the stack first: its callbacks may open, close or clear overlays themselves
         this._overlays.value.pop();
-
-        return result;
+        return this.runClose(overlay, ...args);
     }
 
     public remove(id: string, ...args: any[]) {
@@ -77,12 +80,8 @@ export class OverlayCallbackStore {
         if (index === -1) {
             return;
         }
-        const [targetId] = this._overlays.value[index];
-        this.run(targetId, OVERLAY_CLOSE, ...args);
-        const result = this.run(targetId, 'close', ...args);
-        this._overlays.value.splice(index, 1);
-
-        return result;
+        const [overlay] = this._overlays.value.splice(index, 1);
+        return this.runClose(overlay, ...args);
     }
 
     public clear(...args: any[]) {
-- 
2.43.0


From 75241e52b7940997dd428998565fca9bde3fd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:36 +0000
Subject: [PATCH 02/42] fix: close the modal a close request was addressed to

While beforeClose was pending another modal could be opened or closed, and
the request then removed whatever modal and overlay were last. Closing now
acts on the requested modal only, and reports false when it is already gone.
Clearing a container also reports the close of modals not yet mounted.
---
 .../src/plugins/modal-plugin/modal-plugin.ts  | 39 ++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
index 451be6b..f5a1ec0 100644
--- a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
+++ b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
@@ -1,5 +1,6 @@
 import { type Component } from 'vue';
 import { useOverlayContainerStore, useModalContainerStore, useOverlayCallbackStore } from '@/stores';
+import { OVERLAY_CLOSE } from '@/declaration';
 import { logUtil } from '@/utils';
 import type { ModalInfo, ModalOptions, ModalPlugin } from './types';
 import { createModalInfo } from './modal-model';
@@ -18,6 +19,27 @@ export function createModalPlugin(): ModalPlugin {
         return result !== false;
     }
 
+    function removeOverlay(modal: ModalInfo) {
+        const isActivated = overlayCallbackStore.overlays.value.some(([id]) => id === modal.id);
+        if (isActivated) {
+            overlayCallbackStore.remove(modal.id);
+        } else {
+            // not mounted yet: no overlay will report the close
+            modal.callbacks?.[OVERLAY_CLOSE]?.();
+        }
+    }
+
+    function closeModal(container: string, modal: ModalInfo): boolean {
+        // the modal may have been closed by someone else while its beforeClose was pending
+        if (!modalStore.get(container).includes(modal)) {
+            return false;
+        }
+
+        modalStore.remove(container, modal.id);
+        removeOverlay(modal);
+        return true;
+    }
+
     return {
         open(content: string | Component, options: ModalOptions = {}): string {
             const container = options.container || 'body';
@@ -59,11 +81,7 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
-            modalStore.pop(container);
-
-            const lastOverlayId = overlayCallbackStore.getLastOverlayId();
-            overlayCallbackStore.remove(lastOverlayId);
-            return true;
+            return closeModal(container, last);
         },
 
         async closeWithId(container: string, id: string): Promise<boolean> {
@@ -75,18 +93,13 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
-            modalStore.remove(container, id);
-
-            overlayCallbackStore.remove(id);
-            return true;
+            return closeModal(container, target);
         },
 
         clear(container = 'body') {
-            const modalIds = modalStore.get(container).map((modal) => modal.id);
-            modalIds.forEach((modalId) => {
-                overlayCallbackStore.remove(modalId);
-            });
+            const modals = modalStore.get(container);
             modalStore.delete(container);
+            modals.forEach(removeOverlay);
         },
     };
 }
-- 
2.43.0


From da4848c1467395d5ee1ff7669022db7f27c8799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:36 +0000
Subject: [PATCH 03/42] fix: let dialog buttons answer their own dialog

The OK and Cancel buttons of alert, confirm and prompt answered whichever
overlay was opened last. The promise also never settled when the container
does not exist.
---
 .../src/plugins/alert-plugin/alert-plugin.ts   | 16 ++++++----------
 .../plugins/confirm-plugin/confirm-plugin.ts   | 18 +++++++-----------
 .../src/plugins/prompt-plugin/prompt-plugin.ts | 18 +++++++-----------
 3 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
index 620bc19..ab2bedb 100644
--- a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
+++ b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
@@ -10,17 +10,10 @@ import type { AlertModalOptions, AlertPlugin, VsAlertStyleSet } from './types';
 export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleOk() {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
-        overlayCallback.run<void>(overlayId, ALERT_OK);
-    }
-
     return {
         open(content: string | Component, options: AlertModalOptions = {}): Promise<void> {
             const { componentProps, ...modalOptions } = options;
+            let modalId = '';
             const { container = 'body', colorScheme, styleSet, okText = 'OK' } = modalOptions;
 
             const baseStyleSet: Ref<Partial<VsAlertStyleSet>> = ref({
@@ -38,7 +31,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: handleOk,
+                onClickEvent: () => overlayCallback.run<void>(modalId, ALERT_OK),
             });
 
             const contents = h(VsRender, { content, componentProps });
@@ -46,7 +39,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const alert = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(alert, {
+                modalId = modalPlugin.open(alert, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -68,6 +61,9 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve();
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
index e80e152..14096e1 100644
--- a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
+++ b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
@@ -11,17 +11,10 @@ import type { ConfirmModalOptions, ConfirmPlugin, VsConfirmStyleSet } from './ty
 export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
-        overlayCallback.run<boolean>(overlayId, eventName);
-    }
-
     return {
         open(content: string | Component, options: ConfirmModalOptions = {}): Promise<boolean> {
             const { componentProps, ...modalOptions } = options;
+            let modalId = '';
             const {
                 container = 'body',
                 colorScheme,
@@ -44,13 +37,13 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(CONFIRM_OK),
+                onClickEvent: () => overlayCallback.run<boolean>(modalId, CONFIRM_OK),
             });
 
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(CONFIRM_CANCEL),
+                onClickEvent: () => overlayCallback.run<boolean>(modalId, CONFIRM_CANCEL),
             });
 
             const buttonsClass = ['flex', 'w-full', 'items-center', 'justify-center', 'gap-2'];
@@ -68,7 +61,7 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const confirm = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(confirm, {
+                modalId = modalPlugin.open(confirm, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -94,6 +87,9 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve(false);
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
index d75b8a8..5c304be 100644
--- a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
+++ b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
@@ -10,17 +10,10 @@ import { vnodeUtils } from './../utils/vnode-utils';
 export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
-        overlayCallback.run<VsInputValueType>(overlayId, eventName);
-    }
-
     return {
         open(content: string | Component, options: PromptModalOptions = {}): Promise<string | number | null> {
             const { componentProps, ...modalOptions } = options;
+            let modalId = '';
             const {
                 container = 'body',
                 colorScheme,
@@ -51,12 +44,12 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(PROMPT_OK),
+                onClickEvent: () => overlayCallback.run<VsInputValueType>(modalId, PROMPT_OK),
             });
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(PROMPT_CANCEL),
+                onClickEvent: () => overlayCallback.run<VsInputValueType>(modalId, PROMPT_CANCEL),
             });
             const buttons = h(
                 'div',
@@ -87,7 +80,7 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             };
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(prompt, {
+                modalId = modalPlugin.open(prompt, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -121,6 +114,9 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve(null);
+                }
             });
         },
     };
-- 
2.43.0


From b6b92059696d5792f10c0d242f41d03b510fbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:36 +0000
Subject: [PATCH 04/42] fix: remove an active overlay when its owner is
 unmounted

The overlay stayed on the stack and kept swallowing key presses.
---
 .../overlay-callback/overlay-callback-composable.ts   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
index 9617417..27393f8 100644
--- a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
+++ b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
@@ -1,4 +1,4 @@
-import { computed, type Ref, ref, watch } from 'vue';
+import { computed, getCurrentInstance, onBeforeUnmount, type Ref, ref, watch } from 'vue';
 import { useOverlayCallbackStore } from '@/stores';
 import { stringUtil } from '@/utils';
 import { ANIMATION_DURATION, type OverlayCallbacks } from '@/declaration';
@@ -32,5 +32,14 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
         }
     });
 
+    if (getCurrentInstance()) {
+        onBeforeUnmount(() => {
+            // the owner can be removed while its overlay is still active
+            if (isActivated.value) {
+                overlayCallbackStore.remove(overlayId.value);
+            }
+        });
+    }
+
     return { overlayId, isActivated, isUnmounting, activate, deactivate };
 }
-- 
2.43.0


From 0a61acb42a1689594d2ec9fbb9bb87270a24b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:30 +0000
Subject: [PATCH 05/42] fix: drop results of rules and messages that belong to
 an older value

A slow asynchronous rule or message appended its result even when the value had
changed since, and one failing rule discarded the results of the others.
---
 .../input-messages-composable.ts              | 30 +++++++++++++++++--
 .../input-rules/input-rules-composable.ts     | 29 +++++++++++++++---
 2 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
index cd08555..9b9690b 100644
--- a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
+++ b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
@@ -1,5 +1,6 @@
 import { computed, type ComputedRef, ref, type Ref, watch } from 'vue';
 import type { Message, StateMessage } from '@/declaration';
+import { logUtil } from '@/utils';
 
 export function useInputMessages<T>(
     inputValue: Ref<T>,
@@ -9,13 +10,26 @@ export function useInputMessages<T>(
     const innerMessages: Ref<StateMessage[]> = ref([]);
     const showRuleMessages = ref(false);
 
+    let checkCount = 0;
+
+    function onMessageError(error: unknown) {
+        logUtil.error('input-messages', `A message failed: ${error}`);
+    }
+
     async function checkMessages() {
+        const currentCheck = ++checkCount;
         innerMessages.value = [];
         const pendingMessages: Promise<StateMessage>[] = [];
 
         messages.value.forEach((message) => {
             if (typeof message === 'function') {
-                const result = message(inputValue.value);
+                let result: StateMessage | PromiseLike<StateMessage>;
+                try {
+                    result = message(inputValue.value);
+                } catch (error) {
+                    onMessageError(error);
+                    return;
+                }
                 if (result instanceof Promise) {
                     pendingMessages.push(result);
                 } else {
@@ -29,8 +43,18 @@ export function useInputMessages<T>(
         if (pendingMessages.length === 0) {
             return;
         }
-        const resolvedMessages = await Promise.all(pendingMessages);
-        innerMessages.value.push(...resolvedMessages);
+        const settledMessages = await Promise.allSettled(pendingMessages);
+        // a newer check has started: these results belong to an old value
+        if (currentCheck !== checkCount) {
+            return;
+        }
+        settledMessages.forEach((settled) => {
+            if (settled.status === 'rejected') {
+                onMessageError(settled.reason);
+            } else {
+                innerMessages.value.push(settled.value);
+            }
+        });
     }
 
     watch(messages, checkMessages, { deep: true });
diff --git a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
index 4d2fabd..cb01b8f 100644
--- a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
+++ b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
@@ -1,5 +1,6 @@
 import { ref, type Ref, computed, watch } from 'vue';
 import type { Rule, StateMessage } from '@/declaration';
+import { logUtil } from '@/utils';
 
 export function useInputRules<T>(
     inputValue: Ref<T>,
@@ -16,12 +17,25 @@ export function useInputRules<T>(
     });
 
     const ruleMessages: Ref<StateMessage[]> = ref([]);
+    let checkCount = 0;
+
+    function onRuleError(error: unknown) {
+        logUtil.error('input-rules', `A rule failed: ${error}`);
+    }
+
     async function checkRules() {
+        const currentCheck = ++checkCount;
         ruleMessages.value = [];
         const pendingRules: Promise<string>[] = [];
 
         computedRules.value.forEach((rule) => {
-            const result = rule(inputValue.value);
+            let result: ReturnType<Rule<T>>;
+            try {
+                result = rule(inputValue.value);
+            } catch (error) {
+                onRuleError(error);
+                return;
+            }
             if (!result) {
                 return;
             }
@@ -35,11 +49,18 @@ export function useInputRules<T>(
         if (pendingRules.length === 0) {
             return;
         }
-        const resolvedMessages = (await Promise.all(pendingRules)).reduce((acc: StateMessage[], resolved) => {
-            if (resolved) {
+        const settledRules = await Promise.allSettled(pendingRules);
+        // a newer check has started: these results belong to an old value
+        if (currentCheck !== checkCount) {
+            return;
+        }
+        const resolvedMessages = settledRules.reduce((acc: StateMessage[], settled) => {
+            if (settled.status === 'rejected') {
+                onRuleError(settled.reason);
+            } else if (settled.value) {
                 acc.push({
                     state: 'error',
-                    text: resolved,
+                    text: settled.value,
                 });
             }
 
-- 
2.43.0


From 1851c320896e19f455fd0168a62e6102912a831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:51 +0000
Subject: [PATCH 06/42] fix: keep the inner inputs of composite fields out of
 the form

Checkbox sets, radio sets, date pickers and selects render other inputs. Those
registered themselves in the surrounding form, so a form stayed changed after
clearing such a field and reported the inner inputs as invalid fields.
---
 .../vlossom/src/components/vs-checkbox/VsCheckboxSet.vue  | 8 ++++++--
 .../src/components/vs-date-picker/VsDatePicker.vue        | 7 ++++++-
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue   | 8 ++++++--
 packages/vlossom/src/components/vs-select/VsSelect.vue    | 7 ++++++-
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index 3310bc5..e7be837 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -56,8 +56,8 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type PropType, type TemplateRef } from 'vue';
-import { VsComponent, type Size } from '@/declaration';
+import { computed, defineComponent, provide, ref, toRefs, type PropType, type TemplateRef } from 'vue';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
 import {
     getColorSchemeProps,
     getOptionsProps,
@@ -67,6 +67,7 @@ import {
     getMinMaxProps,
 } from '@/props';
 import { useColorScheme, useInput, useSizeClass, useStyleSet, useInputOption } from '@/composables';
+import { FormStore } from '@/stores';
 import { objectUtil } from '@/utils';
 
 import type { VsCheckboxSetStyleSet } from './types';
@@ -123,6 +124,9 @@ export default defineComponent({
             vertical,
         } = toRefs(props);
 
+        // inputs rendered inside this one are its parts, not fields of the surrounding form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const checkboxRefs: TemplateRef<InstanceType<typeof VsCheckbox>[]> = ref([]);
 
         const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 055d0ff..b6178bc 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -60,6 +60,7 @@
 import {
     computed,
     defineComponent,
+    provide,
     ref,
     toRefs,
     useTemplateRef,
@@ -69,7 +70,8 @@ import {
     type Ref,
     type TemplateRef,
 } from 'vue';
-import { VsComponent, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
+import { FormStore } from '@/stores';
 import { logUtil } from '@/utils';
 import { useStyleSet, useInput } from '@/composables';
 import { getInputProps, getResponsiveProps, getColorSchemeProps, getStyleSetProps } from '@/props';
@@ -177,6 +179,9 @@ export default defineComponent({
             state,
         } = toRefs(props);
 
+        // inputs rendered inside this one are its parts, not fields of the surrounding form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const dateInputRef: TemplateRef<VsInputRef> = useTemplateRef('dateInputRef');
 
         const inputValue: Ref<VsDatePickerValueType> = ref(modelValue.value);
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index d4c55dc..b32302e 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -56,10 +56,11 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
+import { computed, defineComponent, provide, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
 import { useColorScheme, useInput, useInputOption, useSizeClass, useStyleSet } from '@/composables';
 import { getColorSchemeProps, getOptionsProps, getInputProps, getResponsiveProps, getStyleSetProps } from '@/props';
-import { VsComponent, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
+import { FormStore } from '@/stores';
 import { objectUtil } from '@/utils';
 import type { VsRadioSetStyleSet } from './types';
 
@@ -113,6 +114,9 @@ export default defineComponent({
             width,
         } = toRefs(props);
 
+        // inputs rendered inside this one are its parts, not fields of the surrounding form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const radioRefs: TemplateRef<InstanceType<typeof VsRadio>[]> = useTemplateRef('radioRefs');
 
         const inputValue = ref(modelValue.value);
diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index b25905e..79601c2 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -115,6 +115,7 @@ import {
     computed,
     defineComponent,
     nextTick,
+    provide,
     ref,
     toRefs,
     useTemplateRef,
@@ -125,7 +126,7 @@ import {
     type TemplateRef,
     type CSSProperties,
 } from 'vue';
-import { VsComponent, type OptionItem, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type OptionItem, type Size } from '@/declaration';
 import {
     getColorSchemeProps,
     getStyleSetProps,
@@ -147,6 +148,7 @@ import {
     useClickOutside,
     useSizeClass,
 } from '@/composables';
+import { FormStore } from '@/stores';
 import { objectUtil } from '@/utils';
 import type { VsSelectStyleSet, VsSelectTriggerRef } from './types';
 import { useSelectRules } from './vs-select-rules';
@@ -228,6 +230,9 @@ export default defineComponent({
         const isFocused = ref(false);
         const inputValue: Ref<any> = ref(modelValue.value);
 
+        // inputs rendered inside this one are its parts, not fields of the surrounding form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const triggerRef: TemplateRef<VsSelectTriggerRef> = useTemplateRef('triggerRef');
         const searchInputRef: TemplateRef<VsSearchInputRef> = useTemplateRef('searchInputRef');
         const optionsListRef: TemplateRef<VsGroupedListRef> = useTemplateRef('optionsListRef');
-- 
2.43.0


From d2b935884b3a7fcd599cb3b1aa8679dc1aff8e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:51 +0000
Subject: [PATCH 07/42] fix: empty a textarea when it is cleared

---
 packages/vlossom/src/components/vs-textarea/VsTextarea.vue | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index cd0262d..469cefe 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -141,6 +141,9 @@ export default defineComponent({
                     onChange: () => {
                         inputValue.value = convertValue(inputValue.value);
                     },
+                    onClear: () => {
+                        inputValue.value = '';
+                    },
                 },
             },
         );
-- 
2.43.0


From 6dd27ac5479d1ccfbe6b24a5d7a18cadce0e18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:51 +0000
Subject: [PATCH 08/42] fix: show the modified text when typing does not change
 the value

With a case modifier, typing a letter that converts to the text already held
left the unconverted letter in the box.
---
 packages/vlossom/src/components/vs-input/VsInput.vue       | 4 ++++
 packages/vlossom/src/components/vs-textarea/VsTextarea.vue | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/packages/vlossom/src/components/vs-input/VsInput.vue b/packages/vlossom/src/components/vs-input/VsInput.vue
index 5f455c6..5983af7 100644
--- a/packages/vlossom/src/components/vs-input/VsInput.vue
+++ b/packages/vlossom/src/components/vs-input/VsInput.vue
@@ -207,6 +207,10 @@ export default defineComponent({
             const target = event.target as HTMLInputElement;
             const value = target.value || '';
             inputValue.value = convertValue(value);
+            // the value may be unchanged after conversion, then nothing would render the converted text
+            if (!isNumberInput.value && target.value !== inputValue.value) {
+                target.value = inputValue.value as string;
+            }
         }
 
         function focus() {
diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index 469cefe..a678d63 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -162,6 +162,10 @@ export default defineComponent({
             const target = event.target as HTMLTextAreaElement;
             const value = target.value || '';
             inputValue.value = convertValue(value);
+            // the value may be unchanged after conversion, then nothing would render the converted text
+            if (target.value !== inputValue.value) {
+                target.value = inputValue.value;
+            }
         }
 
         function onFocus(e: FocusEvent) {
-- 
2.43.0


From c5e025eac1c7fd2f2bf8dcb8122142456a6f7c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:14 +0000
Subject: [PATCH 09/42] fix: honour a form validation or clear requested twice
 in one tick

Two requests toggled the flag twice, so the fields saw no change at all.
---
 packages/vlossom/src/stores/form-store.ts | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/stores/form-store.ts b/packages/vlossom/src/stores/form-store.ts
index 2a94139..016cb94 100644
--- a/packages/vlossom/src/stores/form-store.ts
+++ b/packages/vlossom/src/stores/form-store.ts
@@ -1,4 +1,4 @@
-import { ref, type Ref, computed } from 'vue';
+import { ref, type Ref, computed, nextTick } from 'vue';
 
 export class FormStore {
     private _disabled = ref(false);
@@ -7,6 +7,8 @@ export class FormStore {
     private _validObj: Ref<Record<string, boolean>> = ref({});
     private _validateFlag = ref(false);
     private _clearFlag = ref(false);
+    private validateRequested = false;
+    private clearRequested = false;
 
     public static getDefaultFormStore(): FormStore {
         return new FormStore();
@@ -44,12 +46,27 @@ export class FormStore {
     public validateFlag = computed(() => this._validateFlag.value);
 
     public toggleValidateFlag() {
+        // a second toggle within one tick would cancel the first one
+        if (this.validateRequested) {
+            return;
+        }
+        this.validateRequested = true;
+        nextTick(() => {
+            this.validateRequested = false;
+        });
         this._validateFlag.value = !this._validateFlag.value;
     }
 
     public clearFlag = computed(() => this._clearFlag.value);
 
     public toggleClearFlag() {
+        if (this.clearRequested) {
+            return;
+        }
+        this.clearRequested = true;
+        nextTick(() => {
+            this.clearRequested = false;
+        });
         this._clearFlag.value = !this._clearFlag.value;
     }
 }
-- 
2.43.0


From a2c4d5a8d9b02113b88731f4ab2c2e105288cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:59 +0000
Subject: [PATCH 10/42] fix: report a value that was changed back within one
 tick to the model

A write to the model and a clear in the same tick cancelled out inside the
field, which then held another value than its model.
---
 packages/vlossom/src/composables/input/input-composable.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vlossom/src/composables/input/input-composable.ts b/packages/vlossom/src/composables/input/input-composable.ts
index 7c996cc..7957547 100644
--- a/packages/vlossom/src/composables/input/input-composable.ts
+++ b/packages/vlossom/src/composables/input/input-composable.ts
@@ -49,6 +49,10 @@ export function useInput<T = unknown>(ctx: any, inputParams: InputComponentParam
         inputValue,
         (value, oldValue) => {
             if (isInputValueEqual(value, oldValue)) {
+                // changed and changed back within one tick: the model may hold what was written in between
+                if (!isInputValueEqual(value, modelValue.value)) {
+                    emit('update:modelValue', value);
+                }
                 return;
             }
 
-- 
2.43.0


From c88106fc85e4434dfce4f4fc1abf49c96bfcf504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:06 +0000
Subject: [PATCH 11/42] fix: do not mount a toast view into a missing container

The view was registered before the container was looked up. Its teleport had no
target, which broke the rendering of every later overlay.
---
 packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
index cb27c5d..fabefbb 100644
--- a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
+++ b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
@@ -12,10 +12,6 @@ export function createToastPlugin(): ToastPlugin {
             const overlayContainerStore = useOverlayContainerStore();
             const toastStore = useToastContainerStore();
 
-            // mount ToastView to OverlayWrapper
-            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
-            overlayContainerStore.push(overlayId, container, 'VsToastView');
-
             const containerElement: HTMLElement | null = document.querySelector(container);
 
             if (!containerElement) {
@@ -27,6 +23,10 @@ export function createToastPlugin(): ToastPlugin {
                 containerElement.style.position = 'relative';
             }
 
+            // mount ToastView to OverlayWrapper
+            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
+            overlayContainerStore.push(overlayId, container, 'VsToastView');
+
             const toastInfo = createToastInfo(content, options);
             toastStore.push(container, toastInfo);
 
-- 
2.43.0


From 54f134246691300e93ff1d4b2c060610f3f2fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:06 +0000
Subject: [PATCH 12/42] fix: share the original styles between scroll locks of
 one container

Locks released in another order than they were taken, or taken again within the
same frame, left the container locked or unlocked for good.
---
 .../scroll-lock/scroll-lock-composable.ts     | 71 +++++++++++--------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
index d8b7a9a..bdd5a3e 100644
--- a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
+++ b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
@@ -7,56 +7,66 @@ interface ScrollLockState {
     paddingBottom: string;
 }
 
+interface ScrollLockEntry {
+    holders: number;
+    originalState: ScrollLockState;
+}
+
+// the locks on one container share its original styles
+const scrollLockEntries = new WeakMap<HTMLElement, ScrollLockEntry>();
+
 export function useScrollLock(container: string = 'body') {
     const containerElement: HTMLElement | null = document.querySelector(container);
 
     const isLocked = ref(false);
 
-    const originalState = ref<ScrollLockState>({
-        overflow: '',
-        paddingRight: '0',
-        paddingBottom: '0',
-    });
     const scrollbarWidth = '8px';
     const isNotTouchDevice = !(domUtil.isBrowser() && deviceUtil.isTouchDevice());
 
-    function saveOriginalState() {
-        if (!containerElement) {
-            return;
+    function getEntry(element: HTMLElement): ScrollLockEntry {
+        const entry = scrollLockEntries.get(element);
+        if (entry) {
+            return entry;
         }
 
-        originalState.value = {
-            overflow: containerElement.style.overflow,
-            paddingRight: containerElement.style.paddingRight,
-            paddingBottom: containerElement.style.paddingBottom,
-        };
+        const { overflow, paddingRight, paddingBottom } = element.style;
+        const newEntry = { holders: 0, originalState: { overflow, paddingRight, paddingBottom } };
+        scrollLockEntries.set(element, newEntry);
+        return newEntry;
     }
 
-    function applyScrollLockStyles() {
-        if (!containerElement) {
-            return;
-        }
-
-        containerElement.style.overflow = 'hidden';
+    function applyScrollLockStyles(element: HTMLElement) {
+        element.style.overflow = 'hidden';
 
         if (isNotTouchDevice) {
-            if (containerElement.scrollHeight >= containerElement.clientHeight) {
-                containerElement.style.paddingRight = scrollbarWidth;
+            if (element.scrollHeight >= element.clientHeight) {
+                element.style.paddingRight = scrollbarWidth;
             }
-            if (containerElement.scrollWidth >= containerElement.clientWidth) {
-                containerElement.style.paddingBottom = scrollbarWidth;
+            if (element.scrollWidth >= element.clientWidth) {
+                element.style.paddingBottom = scrollbarWidth;
             }
         }
     }
 
-    function restoreOriginalState() {
+    function updateStyles() {
         if (!containerElement) {
             return;
         }
 
-        containerElement.style.overflow = originalState.value.overflow;
-        containerElement.style.paddingRight = originalState.value.paddingRight;
-        containerElement.style.paddingBottom = originalState.value.paddingBottom;
+        const entry = scrollLockEntries.get(containerElement);
+        if (!entry) {
+            return;
+        }
+
+        if (entry.holders > 0) {
+            applyScrollLockStyles(containerElement);
+            return;
+        }
+
+        containerElement.style.overflow = entry.originalState.overflow;
+        containerElement.style.paddingRight = entry.originalState.paddingRight;
+        containerElement.style.paddingBottom = entry.originalState.paddingBottom;
+        scrollLockEntries.delete(containerElement);
     }
 
     function lock() {
@@ -64,9 +74,9 @@ export function useScrollLock(container: string = 'body') {
             return;
         }
 
-        saveOriginalState();
+        getEntry(containerElement).holders++;
         isLocked.value = true;
-        requestAnimationFrame(applyScrollLockStyles);
+        requestAnimationFrame(updateStyles);
     }
 
     function unlock() {
@@ -74,8 +84,9 @@ export function useScrollLock(container: string = 'body') {
             return;
         }
 
+        getEntry(containerElement).holders--;
         isLocked.value = false;
-        requestAnimationFrame(restoreOriginalState);
+        requestAnimationFrame(updateStyles);
     }
 
     return {
-- 
2.43.0


From 7121ddcc52c8c6d806194c62852db3d1df599157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:31 +0000
Subject: [PATCH 13/42] fix: keep a bound modal in step with its value when it
 starts open or its guard fails or answers late

---
 .../vlossom/src/components/vs-modal/VsModal.vue | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/vlossom/src/components/vs-modal/VsModal.vue b/packages/vlossom/src/components/vs-modal/VsModal.vue
index 0176899..c19ae89 100644
--- a/packages/vlossom/src/components/vs-modal/VsModal.vue
+++ b/packages/vlossom/src/components/vs-modal/VsModal.vue
@@ -1,5 +1,5 @@
 <script lang="ts">
-import { defineComponent, ref, toRefs, watch, computed, type Component, type PropType } from 'vue';
+import { defineComponent, ref, toRefs, watch, computed, onMounted, type Component, type PropType } from 'vue';
 import { VsComponent, OVERLAY_CLOSE, type SizeProp } from '@/declaration';
 import { getColorSchemeProps, getStyleSetProps } from '@/props';
 import { getOverlayProps } from '@/props';
@@ -32,7 +32,7 @@ export default defineComponent({
         const $vs = useVlossom();
         const { modelValue, container, callbacks } = toRefs(props);
 
-        const isOpen = ref(modelValue.value);
+        const isOpen = ref(false);
         const modalId = ref('');
 
         const modalOptions = computed(() => {
@@ -52,9 +52,12 @@ export default defineComponent({
                 return;
             }
             if (!o) {
-                const closed = await $vs.modal.closeWithId(container.value, modalId.value);
-                if (!closed) {
-                    emit('update:modelValue', true);
+                try {
+                    await $vs.modal.closeWithId(container.value, modalId.value);
+                } finally {
+                    if (isOpen.value && !modelValue.value) {
+                        emit('update:modelValue', true);
+                    }
                 }
                 return;
             }
@@ -71,6 +74,10 @@ export default defineComponent({
             }
         });
 
+        onMounted(() => {
+            isOpen.value = modelValue.value;
+        });
+
         return () => null;
     },
 });
-- 
2.43.0


From c6c69add356d4b70017e386f7eb3d278e1889756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:29 +0000
Subject: [PATCH 14/42] fix: return focus to where it was when the overlay
 opened and keep Tab inside a focus trap

---
 .../components/vs-focus-trap/VsFocusTrap.vue  | 43 +++++++++++++------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
index 65e602f..6246d67 100644
--- a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
+++ b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
@@ -37,7 +37,8 @@ export default defineComponent({
             return wrapperRef.value instanceof HTMLElement ? wrapperRef.value : (wrapperRef.value.$el as HTMLElement);
         });
 
-        const previousFocused: HTMLElement | null = document.activeElement as HTMLElement;
+        let previousFocused: HTMLElement | null = document.activeElement as HTMLElement;
+        let focusRequest = 0;
 
         let firstFocusable: HTMLElement | null = null;
         let lastFocusable: HTMLElement | null = null;
@@ -53,7 +54,9 @@ export default defineComponent({
                 return;
             }
 
-            if (event.shiftKey && document.activeElement === firstFocusable) {
+            const isFirst =
+                document.activeElement === firstFocusable || document.activeElement === focusTrapAnchorRef.value;
+            if (event.shiftKey && isFirst) {
                 event.preventDefault();
                 lastFocusable.focus();
             } else if (!event.shiftKey && document.activeElement === lastFocusable) {
@@ -63,18 +66,10 @@ export default defineComponent({
         }
 
         function activateCycle() {
-            if (!firstFocusable || !lastFocusable) {
-                return;
-            }
-
             focusTrapRef.value?.addEventListener('keydown', cycleTabKey);
         }
 
         function deactivateCycle() {
-            if (!firstFocusable || !lastFocusable) {
-                return;
-            }
-
             focusTrapRef.value?.removeEventListener('keydown', cycleTabKey);
         }
 
@@ -89,7 +84,7 @@ export default defineComponent({
             );
 
             const shownFocusables = Array.from(focusables).filter(
-                (focusable) => focusable.style.display !== 'none' || !focusable.hasAttribute('disabled'),
+                (focusable) => focusable.style.display !== 'none' && !focusable.hasAttribute('disabled'),
             );
 
             if (!shownFocusables.length) {
@@ -102,16 +97,36 @@ export default defineComponent({
             lastFocusable = shownFocusables[shownFocusables.length - 1];
         }
 
+        function hasFocus() {
+            return !!focusTrapRef.value?.contains(document.activeElement);
+        }
+
         function focus() {
+            if (!hasFocus()) {
+                previousFocused = document.activeElement as HTMLElement;
+            }
+
+            const request = ++focusRequest;
             nextTick(() => {
-                const isChildOfFocusTrap = document.activeElement?.closest('.vs-focus-trap') === focusTrapRef.value;
-                if (!isChildOfFocusTrap) {
-                    focusTrapAnchorRef.value?.focus({ preventScroll: true });
+                if (request !== focusRequest || hasFocus()) {
+                    return;
+                }
+                focusTrapAnchorRef.value?.focus({ preventScroll: true });
+                if (!hasFocus()) {
+                    previousFocused = null;
                 }
             });
         }
 
         function blur() {
+            focusRequest++;
+
+            // focus that has moved on to something else in the page is left there
+            const isFocusLost = !document.activeElement || document.activeElement === document.body;
+            if (!hasFocus() && !isFocusLost) {
+                return;
+            }
+
             if (previousFocused?.focus) {
                 previousFocused.focus();
             }
-- 
2.43.0


From 03ec0ffaee32239e0653c402f1b93f759217ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:36 +0000
Subject: [PATCH 15/42] fix: apply an approved toggle to the value held then
 and restore the native control after a refusal

---
 .../src/components/vs-checkbox/VsCheckbox.vue | 10 +++++--
 .../src/components/vs-radio/VsRadio.vue       | 29 ++++++++++++++++++-
 .../src/components/vs-switch/VsSwitch.vue     | 28 +++++++++++++-----
 3 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
index c304e62..0da684e 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
@@ -208,17 +208,21 @@ export default defineComponent({
                 return;
             }
 
-            const toValue = getUpdatedValue(!isChecked.value);
+            const toChecked = !isChecked.value;
 
             const beforeChangeFn = beforeChange.value;
             if (beforeChangeFn) {
-                const result = await beforeChangeFn(inputValue.value, toValue, trueValue.value);
+                const result = await beforeChangeFn(
+                    inputValue.value,
+                    getUpdatedValue(toChecked),
+                    trueValue.value,
+                );
                 if (!result) {
                     return;
                 }
             }
 
-            inputValue.value = toValue;
+            inputValue.value = getUpdatedValue(toChecked);
             emit('toggle', isChecked.value, e);
         }
 
diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index b0b4692..bce3a08 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -172,7 +172,14 @@ export default defineComponent({
             const beforeChangeFn = beforeChange.value;
 
             if (beforeChangeFn) {
-                const result = await beforeChangeFn(inputValue.value, radioValue.value, radioValue.value);
+                let result: boolean | null = false;
+                try {
+                    result = await beforeChangeFn(inputValue.value, radioValue.value, radioValue.value);
+                } finally {
+                    if (!result) {
+                        restoreChecked();
+                    }
+                }
                 if (!result) {
                     return;
                 }
@@ -182,6 +189,26 @@ export default defineComponent({
             emit('toggle', (event.target as HTMLInputElement).checked);
         }
 
+        // the native radio has been checked in place of the one that holds the current value
+        function restoreChecked() {
+            const radio = radioRef.value;
+            if (!radio) {
+                return;
+            }
+
+            radio.checked = isChecked.value;
+            if (isChecked.value || !name.value) {
+                return;
+            }
+
+            const currentValue = stringUtil.convertToString(inputValue.value);
+            const radioElements = document.querySelectorAll<HTMLInputElement>(`input[name="${name.value}"]`);
+            const current = Array.from(radioElements).find((el) => el.form === radio.form && el.value === currentValue);
+            if (current) {
+                current.checked = true;
+            }
+        }
+
         function onFocus(e: FocusEvent) {
             emit('focus', e);
         }
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index 66b6449..e1e29fe 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -57,6 +57,7 @@
 import {
     computed,
     defineComponent,
+    nextTick,
     ref,
     toRefs,
     useTemplateRef,
@@ -205,17 +206,30 @@ export default defineComponent({
                 return;
             }
 
-            const toValue = getUpdatedValue(!isChecked.value);
+            const toChecked = !isChecked.value;
 
-            const beforeChangeFn = beforeChange.value;
-            if (beforeChangeFn) {
-                const result = await beforeChangeFn(inputValue.value, toValue);
-                if (!result) {
-                    return;
+            try {
+                const beforeChangeFn = beforeChange.value;
+                if (beforeChangeFn) {
+                    const result = await beforeChangeFn(inputValue.value, getUpdatedValue(toChecked));
+                    if (!result) {
+                        return;
+                    }
                 }
+
+                inputValue.value = getUpdatedValue(toChecked);
+            } finally {
+                restoreChecked();
             }
+        }
 
-            inputValue.value = toValue;
+        // the native input has toggled by itself, whatever became of the change
+        function restoreChecked() {
+            nextTick(() => {
+                if (switchRef.value) {
+                    switchRef.value.checked = isChecked.value;
+                }
+            });
         }
 
         function onFocus(e: FocusEvent) {
-- 
2.43.0


From dca3a886f71e5bbe3bda76db33c8d47fa86ce512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:36 +0000
Subject: [PATCH 16/42] fix: let copy and validation feedback last from the
 latest trigger and copy the text shown now

---
 .../components/vs-input-wrapper/VsInputWrapper.vue    |  4 +++-
 .../src/components/vs-text-wrap/VsTextWrap.vue        | 11 +++++++----
 .../vlossom/src/composables/input/input-composable.ts |  8 +++++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-input-wrapper/VsInputWrapper.vue b/packages/vlossom/src/components/vs-input-wrapper/VsInputWrapper.vue
index 5e64999..69e8769 100644
--- a/packages/vlossom/src/components/vs-input-wrapper/VsInputWrapper.vue
+++ b/packages/vlossom/src/components/vs-input-wrapper/VsInputWrapper.vue
@@ -78,9 +78,11 @@ export default defineComponent({
         );
 
         const needToShake = ref(false);
+        let shakeTimer: ReturnType<typeof setTimeout> | undefined;
         watch(shake, () => {
             needToShake.value = true;
-            setTimeout(() => {
+            clearTimeout(shakeTimer);
+            shakeTimer = setTimeout(() => {
                 needToShake.value = false;
             }, 600);
         });
diff --git a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
index 48a7b3f..9b0d89e 100644
--- a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
+++ b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
@@ -78,25 +78,28 @@ export default defineComponent({
 
         const contentsRef: Ref<HTMLElement | null> = ref(null);
         const copied = ref(false);
+        let copiedTimer: ReturnType<typeof setTimeout> | undefined;
 
         const contentText = computed(() => {
             return contentsRef.value?.innerText || '';
         });
 
         async function copyInnerText() {
-            if (!contentText.value) {
+            const text = contentsRef.value?.innerText;
+            if (!text) {
                 return;
             }
 
-            const success = await clipboardUtil.copy(contentText.value);
+            const success = await clipboardUtil.copy(text);
             if (!success) {
                 return;
             }
 
-            emit('copied', contentText.value);
+            emit('copied', text);
 
             copied.value = true;
-            setTimeout(() => {
+            clearTimeout(copiedTimer);
+            copiedTimer = setTimeout(() => {
                 copied.value = false;
             }, 2000);
         }
diff --git a/packages/vlossom/src/composables/input/input-composable.ts b/packages/vlossom/src/composables/input/input-composable.ts
index 7957547..560404b 100644
--- a/packages/vlossom/src/composables/input/input-composable.ts
+++ b/packages/vlossom/src/composables/input/input-composable.ts
@@ -122,10 +122,16 @@ export function useInput<T = unknown>(ctx: any, inputParams: InputComponentParam
     });
 
     const shake = ref(false);
+    let isShakeRequested = false;
     function validate(): boolean {
         showRuleMessages.value = true;
-        if (!valid.value) {
+        // flipping twice within one tick would cancel out
+        if (!valid.value && !isShakeRequested) {
+            isShakeRequested = true;
             shake.value = !shake.value;
+            nextTick(() => {
+                isShakeRequested = false;
+            });
         }
         return valid.value;
     }
-- 
2.43.0


From 4b8a0ea520a86d0a8e44c403f5aa3994afce65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:52 +0000
Subject: [PATCH 17/42] fix: keep a select's choice through option list
 changes, out of reach while locked, and without an empty search entry

---
 .../src/components/vs-select/VsSelect.vue     | 56 ++++++++++++-------
 .../composables/select-value-composable.ts    |  2 +-
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index 79601c2..18c0a73 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -54,8 +54,13 @@
                     @click-item="selectOptionItem"
                 >
                     <template #header v-if="isUsingSearch || $slots['options-header']">
-                        <div class="vs-select-search vs-select-focusable" data-focusable data-role="search">
-                            <vs-search-input v-if="isUsingSearch" ref="searchInputRef" v-bind="searchProps" :size />
+                        <div
+                            v-if="isUsingSearch"
+                            class="vs-select-search vs-select-focusable"
+                            data-focusable
+                            data-role="search"
+                        >
+                            <vs-search-input ref="searchInputRef" v-bind="searchProps" :size />
                         </div>
                         <div
                             v-if="multiple && selectAll"
@@ -511,6 +516,27 @@ export default defineComponent({
             { deep: true },
         );
 
+        function syncSelectedOptionIds() {
+            if (inputValue.value === undefined || inputValue.value === null) {
+                selectedOptionIds.value = [];
+                return;
+            }
+
+            const isArrayMultiple = multiple.value && Array.isArray(inputValue.value);
+            const inputValueArray = isArrayMultiple ? inputValue.value : [inputValue.value];
+
+            selectedOptionIds.value = inputValueArray
+                .map((v: any) => {
+                    for (const option of computedOptions.value) {
+                        if (objectUtil.isEqual(option.value, v)) {
+                            return option.id;
+                        }
+                    }
+                    return null;
+                })
+                .filter((v: any) => v !== null);
+        }
+
         watch(
             inputValue,
             (newInputValue, oldInputValue) => {
@@ -518,28 +544,18 @@ export default defineComponent({
                     return;
                 }
 
-                if (newInputValue === undefined || newInputValue === null) {
-                    selectedOptionIds.value = [];
-                    return;
-                }
-
-                const isArrayMultiple = multiple.value && Array.isArray(inputValue.value);
-                const inputValueArray = isArrayMultiple ? inputValue.value : [inputValue.value];
-
-                selectedOptionIds.value = inputValueArray
-                    .map((v: any) => {
-                        for (const option of computedOptions.value) {
-                            if (objectUtil.isEqual(option.value, v)) {
-                                return option.id;
-                            }
-                        }
-                        return null;
-                    })
-                    .filter((v: any) => v !== null);
+                syncSelectedOptionIds();
             },
             { immediate: true },
         );
 
+        // option ids depend on the position in the list
+        watch(
+            () => computedOptions.value.map((option) => option.id).join(),
+            () => syncSelectedOptionIds(),
+            { flush: 'post' },
+        );
+
         watch([computedDisabled, computedReadonly], () => {
             closeOptions();
         });
diff --git a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
index f2b112a..c9e850d 100644
--- a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
+++ b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
@@ -57,7 +57,7 @@ export function useSelectValue({
     }
 
     function deselectOption(optionId: string) {
-        if (!isSelected(optionId)) {
+        if (isSelectUnavailable.value || !isSelected(optionId)) {
             return;
         }
 
-- 
2.43.0


From 6ec71190f4a0a2f9afb81ab98d8455927e30cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:11 +0000
Subject: [PATCH 18/42] fix: reposition floating content after the last scroll
 or resize and honour its leave delay

The throttle dropped the last event of a burst, so the content stayed at a stale position.
The leave delay was ignored without animation, and a change of the disabled flag restarted a running hide.
Listeners are now removed as soon as the component is unmounted.
---
 .../src/components/vs-floating/VsFloating.vue | 11 ++----
 .../positioning/positioning-composable.ts     | 38 ++++++++++++++++---
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/packages/vlossom/src/components/vs-floating/VsFloating.vue b/packages/vlossom/src/components/vs-floating/VsFloating.vue
index 07baf78..25a13c3 100644
--- a/packages/vlossom/src/components/vs-floating/VsFloating.vue
+++ b/packages/vlossom/src/components/vs-floating/VsFloating.vue
@@ -101,19 +101,16 @@ export default defineComponent({
             isFloated.value = false;
 
             // + 250ms wait for the fade out animation.
-            const delay = noAnimation.value ? 0 : Number(leaveDelay.value) + 250;
+            const delay = Number(leaveDelay.value) + (noAnimation.value ? 0 : 250);
             timer = setTimeout(() => {
                 disappear();
                 timer = null;
             }, delay);
         }
 
-        watch([modelValue, disabled], ([show, isDisabled]) => {
-            if (isDisabled) {
-                hideFloating();
-                return;
-            }
+        const shouldShow = computed(() => modelValue.value && !disabled.value);
 
+        watch(shouldShow, (show) => {
             if (show) {
                 showFloating();
             } else {
@@ -131,7 +128,7 @@ export default defineComponent({
 
         onBeforeUnmount(() => {
             cleanUpTimer();
-            hideFloating();
+            disappear();
         });
 
         return {
diff --git a/packages/vlossom/src/composables/positioning/positioning-composable.ts b/packages/vlossom/src/composables/positioning/positioning-composable.ts
index 67620d8..4a4887a 100644
--- a/packages/vlossom/src/composables/positioning/positioning-composable.ts
+++ b/packages/vlossom/src/composables/positioning/positioning-composable.ts
@@ -1,5 +1,5 @@
 import { ref, nextTick, type Ref, type TemplateRef } from 'vue';
-import { domUtil, functionUtil, logUtil } from '@/utils';
+import { domUtil, logUtil } from '@/utils';
 import type { Placement, Alignment } from '@/declaration';
 
 export interface AttachInfo {
@@ -9,11 +9,15 @@ export interface AttachInfo {
     followWidth?: boolean;
 }
 
+const POSITION_INTERVAL = 30;
+
 export function usePositioning(target: string, attachment: TemplateRef<HTMLElement>) {
     const isVisible = ref(false);
     const computedPlacement: Ref<Placement | null> = ref(null);
     let throttledComputePosition: ((...args: any) => any) | null = null;
     let resizeObserver: ResizeObserver | null = null;
+    let throttleTimer: ReturnType<typeof setTimeout> | null = null;
+    let needsUpdate = false;
 
     function getX(align: Alignment, left: number, right: number, width: number, attachmentWidth: number) {
         switch (align) {
@@ -104,6 +108,23 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
         }
     }
 
+    // The last change within an interval is not dropped, it is applied at the end of the interval.
+    function requestPosition(attachInfo: AttachInfo) {
+        if (throttleTimer) {
+            needsUpdate = true;
+            return;
+        }
+
+        computePosition(attachInfo);
+        throttleTimer = setTimeout(() => {
+            throttleTimer = null;
+            if (needsUpdate) {
+                needsUpdate = false;
+                requestPosition(attachInfo);
+            }
+        }, POSITION_INTERVAL);
+    }
+
     function appear(attachInfo: AttachInfo = {}) {
         if (isVisible.value) {
             return;
@@ -114,6 +135,10 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
 
         // for waiting the attachment to be mounted
         nextTick(() => {
+            if (!isVisible.value || throttledComputePosition) {
+                return;
+            }
+
             try {
                 const targetElement = document.querySelector(target);
                 if (!targetElement || !attachment.value) {
@@ -124,10 +149,7 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
                 attachment.value.style.position = 'absolute';
                 computePosition(attachInfo);
 
-                throttledComputePosition = functionUtil.throttle(
-                    { interval: 30 },
-                    computePosition.bind(null, attachInfo),
-                );
+                throttledComputePosition = requestPosition.bind(null, attachInfo);
 
                 const hasResizeObserver = window && window.ResizeObserver !== undefined;
                 if (hasResizeObserver) {
@@ -153,7 +175,13 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
             resizeObserver?.disconnect();
             document.removeEventListener('scroll', throttledComputePosition, true);
             window.removeEventListener('resize', throttledComputePosition, true);
+            throttledComputePosition = null;
+        }
+        if (throttleTimer) {
+            clearTimeout(throttleTimer);
+            throttleTimer = null;
         }
+        needsUpdate = false;
         isVisible.value = false;
     }
 
-- 
2.43.0


From 7b9eb1b5e738f5a4b4257846ade1b2c370130985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:11 +0000
Subject: [PATCH 19/42] fix: keep tooltip visibility in step with the pointer
 and Escape

A disabled tooltip no longer takes Escape.
The grace time for moving to the contents restarts on every leave, applies only to a tooltip on screen, and ends on Escape.
---
 .../src/components/vs-tooltip/VsTooltip.vue   | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
index 741d29b..4aa2a48 100644
--- a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
+++ b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
@@ -68,7 +68,7 @@ export default defineComponent({
         escClose: { type: Boolean, default: true },
     },
     setup(props) {
-        const { colorScheme, styleSet, target, clickable, contentsHover, escClose } = toRefs(props);
+        const { colorScheme, styleSet, target, clickable, contentsHover, escClose, disabled } = toRefs(props);
 
         const id = ref(stringUtil.createID());
         const triggerClass = computed(() => `vs-tooltip-trigger-${id.value}`);
@@ -77,6 +77,8 @@ export default defineComponent({
         const tooltipOver = ref(false);
         const isMovingOut = ref(false);
         const isClickOpened = ref(false);
+        const isOnScreen = ref(false);
+        let movingOutTimer: ReturnType<typeof setTimeout> | null = null;
 
         const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
 
@@ -84,6 +86,10 @@ export default defineComponent({
 
         const computedShow: WritableComputedRef<boolean> = computed({
             get() {
+                if (disabled.value) {
+                    return false;
+                }
+
                 // 1. basic tooltip
                 if (!clickable.value && !contentsHover.value) {
                     return triggerOver.value;
@@ -107,6 +113,7 @@ export default defineComponent({
                 return false;
             },
             set(value: boolean) {
+                isOnScreen.value = value;
                 if (value) {
                     activate();
                 } else {
@@ -130,6 +137,7 @@ export default defineComponent({
                     } else {
                         tooltipOver.value = false;
                         triggerOver.value = false;
+                        stopMovingOut();
                     }
 
                     deactivate();
@@ -148,27 +156,34 @@ export default defineComponent({
             }
         });
 
-        watch(isMovingOut, () => {
-            if (isMovingOut.value) {
-                setTimeout(() => {
-                    isMovingOut.value = false;
-                }, 100);
-            }
-        });
-
         watch([triggerOver, tooltipOver, isMovingOut], () => {
             if (!triggerOver.value && !tooltipOver.value && !isMovingOut.value) {
                 isClickOpened.value = false;
             }
         });
 
+        // keep the tooltip while the pointer moves between the trigger and the contents
+        function startMovingOut() {
+            stopMovingOut();
+            isMovingOut.value = true;
+            movingOutTimer = setTimeout(stopMovingOut, 100);
+        }
+
+        function stopMovingOut() {
+            if (movingOutTimer) {
+                clearTimeout(movingOutTimer);
+                movingOutTimer = null;
+            }
+            isMovingOut.value = false;
+        }
+
         function onTriggerEnter() {
             triggerOver.value = true;
         }
 
         function onTriggerLeave() {
-            if (contentsHover.value) {
-                isMovingOut.value = true;
+            if (contentsHover.value && computedShow.value && isOnScreen.value) {
+                startMovingOut();
             }
             triggerOver.value = false;
         }
@@ -186,8 +201,8 @@ export default defineComponent({
         }
 
         function onTooltipLeave() {
-            if (contentsHover.value) {
-                isMovingOut.value = true;
+            if (contentsHover.value && computedShow.value && isOnScreen.value) {
+                startMovingOut();
             }
             tooltipOver.value = false;
         }
@@ -224,6 +239,7 @@ export default defineComponent({
 
         onBeforeUnmount(() => {
             removeTargetEventListeners();
+            stopMovingOut();
         });
 
         return {
-- 
2.43.0


From 63581fe2938435e021c62e77b44d6cb2127f2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:39:22 +0000
Subject: [PATCH 20/42] fix: keep theme start-up and toggling working when
 storage fails

Reading or writing the saved theme can throw when storage is blocked or full.
---
 .../vlossom/src/framework/vlossom-class.ts    | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/framework/vlossom-class.ts b/packages/vlossom/src/framework/vlossom-class.ts
index b3a5ef1..4b1a17e 100644
--- a/packages/vlossom/src/framework/vlossom-class.ts
+++ b/packages/vlossom/src/framework/vlossom-class.ts
@@ -6,6 +6,7 @@ import {
     type VlossomOptions,
 } from '@/declaration';
 import { useOptionsStore } from '@/stores';
+import { logUtil } from '@/utils';
 import {
     createToastPlugin,
     createModalPlugin,
@@ -92,11 +93,29 @@ export class Vlossom {
 
     public toggleTheme() {
         this.theme = this._optionsStore.theme.value === 'light' ? 'dark' : 'light';
-        localStorage.setItem(THEME_KEY, this.theme);
+        this.saveTheme(this.theme);
+    }
+
+    // storage can be unavailable or full: the theme then only lasts for the session
+    private saveTheme(theme: Theme) {
+        try {
+            localStorage.setItem(THEME_KEY, theme);
+        } catch (error: any) {
+            logUtil.warning('theme', `The theme could not be saved: ${error}`);
+        }
+    }
+
+    private getSavedTheme(): string | null {
+        try {
+            return localStorage.getItem(THEME_KEY);
+        } catch (error: any) {
+            logUtil.warning('theme', `The saved theme could not be read: ${error}`);
+            return null;
+        }
     }
 
     private setDefaultTheme(optionTheme: Theme = 'light') {
-        const savedTheme = localStorage.getItem(THEME_KEY);
+        const savedTheme = this.getSavedTheme();
         const mediaQuery = window.matchMedia('(prefers-color-scheme: dark)');
         if (savedTheme === 'dark' || (!savedTheme && mediaQuery.matches) || (!savedTheme && optionTheme === 'dark')) {
             this.theme = 'dark';
-- 
2.43.0


From c3711afb78dd80d44b7b122f7d076f875afd33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:52:28 +0000
Subject: [PATCH 21/42] fix: finish opening and closing a panel even when no
 transition ends

A panel toggled inside a hidden parent never gets a transition end, so it stayed at a fixed height or on the page. Transition ends bubbling from the content no longer end the panel's own transition.
---
 .../components/vs-expandable/VsExpandable.vue | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/packages/vlossom/src/components/vs-expandable/VsExpandable.vue b/packages/vlossom/src/components/vs-expandable/VsExpandable.vue
index 9c4cf85..c0ad4a9 100644
--- a/packages/vlossom/src/components/vs-expandable/VsExpandable.vue
+++ b/packages/vlossom/src/components/vs-expandable/VsExpandable.vue
@@ -17,6 +17,10 @@ import { logUtil } from '@/utils';
 import type { VsExpandableStyleSet } from './types';
 
 const componentName = VsComponent.VsExpandable;
+
+/** longest transition (opacity 0.6s) plus a margin, for when no transition ever ends (e.g. inside a hidden parent) */
+const TRANSITION_TIMEOUT = 700;
+
 export default defineComponent({
     name: componentName,
     props: {
@@ -31,6 +35,33 @@ export default defineComponent({
 
         const { sizeClass } = useSizeClass(size);
 
+        let stopWaiting: (() => void) | null = null;
+
+        function waitTransition(element: HTMLElement, finish: () => void) {
+            stopWaiting?.();
+
+            function handleTransitionEnd(event: Event) {
+                // transitions of the content bubble up to the wrapper
+                if (event.target === element) {
+                    complete();
+                }
+            }
+
+            function complete() {
+                stopWaiting?.();
+                finish();
+            }
+
+            const timer = setTimeout(complete, TRANSITION_TIMEOUT);
+            element.addEventListener('transitionend', handleTransitionEnd);
+
+            stopWaiting = () => {
+                clearTimeout(timer);
+                element.removeEventListener('transitionend', handleTransitionEnd);
+                stopWaiting = null;
+            };
+        }
+
         function beforeEnter(el: Element) {
             const element = el as HTMLElement;
             element.style.height = '0';
@@ -50,13 +81,10 @@ export default defineComponent({
             element.style.height = content.offsetHeight + 'px';
             element.style.opacity = '1';
 
-            function handleTransitionEnd() {
-                element.removeEventListener('transitionend', handleTransitionEnd);
+            waitTransition(element, () => {
                 element.style.height = 'auto';
                 done();
-            }
-
-            element.addEventListener('transitionend', handleTransitionEnd);
+            });
         }
 
         function beforeLeave(el: Element) {
@@ -78,12 +106,7 @@ export default defineComponent({
             element.style.height = '0';
             element.style.opacity = '0';
 
-            function handleTransitionEnd() {
-                element.removeEventListener('transitionend', handleTransitionEnd);
-                done();
-            }
-
-            element.addEventListener('transitionend', handleTransitionEnd);
+            waitTransition(element, done);
         }
 
         return {
-- 
2.43.0


From 92e5e76903b6293146ccc9ab433e65525a26b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:06:48 +0000
Subject: [PATCH 22/42] fix: show the fallback or error of an image whose
 failed source is asked for again

Also notice that a lazy image came into view when several visibility reports arrive together.
---
 .../src/components/vs-image/VsImage.vue       | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/packages/vlossom/src/components/vs-image/VsImage.vue b/packages/vlossom/src/components/vs-image/VsImage.vue
index df8560c..bb1ef35 100644
--- a/packages/vlossom/src/components/vs-image/VsImage.vue
+++ b/packages/vlossom/src/components/vs-image/VsImage.vue
@@ -83,12 +83,33 @@ export default defineComponent({
             return src.value;
         });
 
+        // source of the last failed request: asking for it again sends no new request, so no event would follow
+        let failedSrc: string | null = null;
+
         watch([src, fallback], () => {
             isFallback.value = false;
             isNoImage.value = false;
+
+            if (computedSrc.value === failedSrc) {
+                showAlternative();
+            } else {
+                failedSrc = null;
+            }
         });
 
+        function showAlternative() {
+            if (fallback.value && !isFallback.value) {
+                isFallback.value = true;
+                if (fallback.value !== failedSrc) {
+                    return;
+                }
+            }
+
+            isNoImage.value = true;
+        }
+
         function onImageLoad() {
+            failedSrc = null;
             isLoading.value = false;
         }
 
@@ -99,19 +120,14 @@ export default defineComponent({
 
             emit('error');
             isLoading.value = false;
-
-            if (fallback.value && !isFallback.value) {
-                isFallback.value = true;
-                return;
-            }
-
-            isNoImage.value = true;
+            failedSrc = computedSrc.value;
+            showAlternative();
         }
 
         if (hasIntersectionObserver && lazy.value) {
             // Use Intersection Observer for Lazy Load
-            const { pause } = useIntersectionObserver(vsImageRef, ([{ isIntersecting }]) => {
-                if (isIntersecting) {
+            const { pause } = useIntersectionObserver(vsImageRef, (entries) => {
+                if (entries.some(({ isIntersecting }) => isIntersecting)) {
                     isLoaded.value = true;
                     pause();
                 }
-- 
2.43.0


From 651ab27cd9fce8072011d566e8b4bc1e7f139ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:09 +0000
Subject: [PATCH 23/42] fix: keep table rows, selection, expansion and page in
 step with changing items

Expanded rows and the row cache followed row positions instead of items.
The select-all box compared counts instead of membership.
The page could lie behind the last page after a search or removal.
A page size written from outside was ignored after the first change.
Sorting another column continued the cycle of the previous one.
---
 .../components/vs-table/VsTableBodyRow.vue    |  4 +--
 .../vs-table/VsTableCheckboxCell.vue          |  3 +-
 .../vs-table/composables/table-composable.ts  | 34 +++++++++++++++++--
 .../composables/table-expand-composable.ts    | 29 +++++++---------
 .../composables/table-select-composable.ts    | 17 ++++++++--
 .../composables/table-sort-composable.ts      |  4 ++-
 .../vs-table/models/table-cell-builder.ts     |  2 +-
 7 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
index 5aff692..4130ce5 100644
--- a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
@@ -90,7 +90,7 @@ export default defineComponent({
             draggable,
             headerCells,
             loading,
-            selectedItems,
+            isSelectedItem,
             state: stateFn,
             items,
             columns,
@@ -107,7 +107,7 @@ export default defineComponent({
             if (!anySelectable.value) {
                 return false;
             }
-            return selectedItems.value.includes(getRowItem(props.cells));
+            return isSelectedItem(getRowItem(props.cells));
         });
 
         const showExpand = computed(() => anyExpandable.value && !!slots.expand);
diff --git a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
index 9e6d936..6122716 100644
--- a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
@@ -68,6 +68,7 @@ export default defineComponent({
             items,
             selectedAll,
             selectedPartial,
+            isSelectedItem,
             toggleSelectAll,
             loading,
             primary,
@@ -98,7 +99,7 @@ export default defineComponent({
 
         function isSelected(row: VsTableCell[]): boolean {
             if (isVsTableBodyRow(row)) {
-                return selectedItems.value.includes(getRowItem(row));
+                return isSelectedItem(getRowItem(row));
             }
             return selectedAll.value || selectedPartial.value;
         }
diff --git a/packages/vlossom/src/components/vs-table/composables/table-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
index 928af2e..eeb1a7a 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
@@ -125,10 +125,11 @@ export function useTable(
     const internalPage = ref(0);
     const internalPageSize = ref(Number.NaN);
     const page = computed<number>({
-        get: () => rawPage?.value ?? internalPage.value,
+        get: () => toExistingPage(rawPage?.value ?? internalPage.value),
         set: (value: number) => {
-            internalPage.value = value;
-            cb?.updatePage(value);
+            const nextPage = toExistingPage(value);
+            internalPage.value = nextPage;
+            cb?.updatePage(nextPage);
         },
     });
     const pageSize = computed<number>({
@@ -151,6 +152,15 @@ export function useTable(
         },
     });
 
+    // fewer rows or larger pages may leave the current page behind the last one
+    function toExistingPage(value: number): number {
+        if (objectUtil.isEmpty(pagination.value)) {
+            return value;
+        }
+        const lastPage = totalPages.value > 0 ? totalPages.value - 1 : value;
+        return Math.max(0, Math.min(value, lastPage));
+    }
+
     const tableCellBuilder = new TableCellBuilder(items.value, columns.value);
     const { anyExpandable, isExpanded, toggleExpand } = useTableExpand(expandable, items);
     const { sortType, sortColumn, compareRows, updateSortType } = useTableSort(columns);
@@ -160,6 +170,7 @@ export function useTable(
         selectedAll,
         selectedPartial,
         anySelectable,
+        isSelectedItem,
         toggleSelectAll,
     } = useTableSelect(selectable, items, selectedItems);
 
@@ -203,6 +214,21 @@ export function useTable(
         initCells(tableCellBuilder.build());
     }
 
+    watch([() => rawPage?.value, page], ([boundPage, currentPage]) => {
+        if (typeof boundPage === 'number' && boundPage !== currentPage) {
+            page.value = currentPage;
+        }
+    });
+
+    watch(
+        () => rawPageSize?.value,
+        (nextPageSize) => {
+            if (typeof nextPageSize === 'number') {
+                internalPageSize.value = nextPageSize;
+            }
+        },
+    );
+
     watch(builtCellMatrix, (matrix) => {
         initCells(matrix);
     });
@@ -245,6 +271,7 @@ export function useTable(
         selectedItems: internalSelectedItems,
         selectedAll,
         selectedPartial,
+        isSelectedItem,
         toggleSelectAll,
         sortType,
         sortColumn,
@@ -294,5 +321,6 @@ export type TableComposable = {
     toggleExpand: (row: VsTableCell[]) => boolean;
     updateSortType: (headerKey: string) => void;
     initialize: () => void;
+    isSelectedItem: (item: VsTableItem) => boolean;
     toggleSelectAll: () => void;
 };
diff --git a/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts
index b4cfe14..20b969c 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-expand-composable.ts
@@ -1,12 +1,14 @@
-import { computed, reactive, type Ref } from 'vue';
+import { computed, ref, type Ref } from 'vue';
+import { objectUtil } from '@/utils';
 import { type VsTableItem, type VsTableCell } from './../types';
-import { isVsTableBodyRow, getRowId, getRowItem } from './../models/table-model';
+import { isVsTableBodyRow, getRowItem } from './../models/table-model';
 
 export function useTableExpand(
     expandable: Ref<(item: VsTableItem, index?: number, items?: VsTableItem[]) => boolean>,
     items: Ref<VsTableItem[]>,
 ) {
-    const expanded = reactive(new Set());
+    // kept by item, because row ids change whenever the rows are rebuilt
+    const expandedItems = ref<VsTableItem[]>([]);
 
     const anyExpandable = computed<boolean>(() => {
         return items.value.some(expandable.value);
@@ -16,11 +18,8 @@ export function useTableExpand(
         if (!isVsTableBodyRow(row)) {
             return false;
         }
-        const rowId = getRowId(row);
-        if (!rowId) {
-            return false;
-        }
-        return expanded.has(rowId);
+        const rowItem = getRowItem(row);
+        return expandedItems.value.some((item) => objectUtil.isEqual(item, rowItem));
     }
 
     function toggleExpand(row: VsTableCell[]): boolean {
@@ -31,21 +30,17 @@ export function useTableExpand(
         if (!rowItem) {
             return false;
         }
-        const rowId = getRowId(row);
-        if (!rowId) {
-            return false;
-        }
         const rowIdx = row[0]?.rowIdx;
         if (!expandable.value(rowItem, rowIdx, items.value)) {
             return false;
         }
 
-        if (expanded.has(rowId)) {
-            expanded.delete(rowId);
-        } else {
-            expanded.add(rowId);
+        if (isExpanded(row)) {
+            expandedItems.value = expandedItems.value.filter((item) => !objectUtil.isEqual(item, rowItem));
+            return false;
         }
-        return expanded.has(rowId);
+        expandedItems.value = [...expandedItems.value, rowItem];
+        return true;
     }
 
     return {
diff --git a/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
index badfb84..33e39b0 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
@@ -1,4 +1,4 @@
-import { computed, ref, watch, type Ref } from 'vue';
+import { computed, ref, toRaw, watch, type Ref } from 'vue';
 import { objectUtil } from '@/utils';
 import type { VsTableItem } from './../types';
 
@@ -15,14 +15,24 @@ export function useTableSelect(
     const selectableItems = computed<VsTableItem[]>(() => {
         return items.value.filter(selectable.value);
     });
+    const selectedItemSet = computed(() => new Set(selectedItems.value.map((item) => toRaw(item))));
+    // the selection may hold items that are not in the table now
+    const selectedCount = computed(() => selectableItems.value.filter(isSelectedItem).length);
     const selectedPartial = computed(() => {
-        return selectedItems.value.length > 0 && selectedItems.value.length < selectableItems.value.length;
+        return selectedCount.value > 0 && selectedCount.value < selectableItems.value.length;
     });
     const selectedAll = computed(() => {
         const selectableLength = selectableItems.value.length;
-        return selectableLength > 0 && selectedItems.value.length === selectableLength;
+        return selectableLength > 0 && selectedCount.value === selectableLength;
     });
 
+    function isSelectedItem(item: VsTableItem): boolean {
+        if (selectedItemSet.value.has(toRaw(item))) {
+            return true;
+        }
+        return selectedItems.value.some((selected) => objectUtil.isEqual(selected, item));
+    }
+
     function toggleSelectAll(): void {
         if (selectedAll.value) {
             selectedItems.value = [];
@@ -44,6 +54,7 @@ export function useTableSelect(
         selectedAll,
         selectedPartial,
         anySelectable,
+        isSelectedItem,
         toggleSelectAll,
     };
 }
diff --git a/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
index f31b0d2..9d677f7 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
@@ -36,7 +36,9 @@ export function useTableSort(columns: Ref<VsTableColumnDef[]>) {
         if (!targetColumn) {
             return;
         }
-        const current: VsTableSortType = sortType.value ?? VsTableSortType.NONE;
+        // the cycle starts anew for each column
+        const isSameColumn = sortColumn.value?.key === columnKey;
+        const current: VsTableSortType = isSameColumn ? sortType.value : VsTableSortType.NONE;
         const next: VsTableSortType = (current + 1) % SORT_TYPE_COUNT;
 
         sortType.value = next;
diff --git a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
index 5add0f2..49cd7a2 100644
--- a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
+++ b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
@@ -29,7 +29,7 @@ export class TableCellBuilder {
     }
 
     public updateItems(items: VsTableItem[]): TableCellBuilder {
-        if (objectUtil.isEqual(this.items, items)) {
+        if (this.items === items) {
             return this;
         }
         this.items = items;
-- 
2.43.0


From b2aa9e45fb0b2407a746737a3fcdbab5540d7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:13 +0000
Subject: [PATCH 24/42] fix: keep the selection of tabs, steps and pagers when
 a move has nowhere to go

Arrow, Home and End keys on disabled entries dropped the selection.
A bound index set before the entries arrive was lost.
Tabs and steps reported a change while mounting.
---
 .../components/vs-pagination/VsPagination.vue |  6 ++---
 .../src/components/vs-steps/VsSteps.vue       |  4 +--
 .../vlossom/src/components/vs-tabs/VsTabs.vue |  9 ++++---
 .../list-index-selector-composable.ts         | 25 ++++++++++++++++---
 4 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/packages/vlossom/src/components/vs-pagination/VsPagination.vue b/packages/vlossom/src/components/vs-pagination/VsPagination.vue
index 7f89afc..3c40aca 100644
--- a/packages/vlossom/src/components/vs-pagination/VsPagination.vue
+++ b/packages/vlossom/src/components/vs-pagination/VsPagination.vue
@@ -155,7 +155,7 @@ export default defineComponent({
 
         const pageIndexList = computed(() => Array.from({ length: length.value }, (_, i) => i));
 
-        const { selectedIndex, selectIndex, syncIndex, isFirstEdge, isLastEdge } = useIndexSelector(
+        const { selectedIndex, selectIndex, moveToIndex, syncIndex, isFirstEdge, isLastEdge } = useIndexSelector(
             pageIndexList,
             disabled,
         );
@@ -216,11 +216,11 @@ export default defineComponent({
         }
 
         function goPrev() {
-            selectIndex(selectedIndex.value - 1);
+            moveToIndex(selectedIndex.value - 1);
         }
 
         function goNext() {
-            selectIndex(selectedIndex.value + 1);
+            moveToIndex(selectedIndex.value + 1);
         }
 
         watch(modelValue, syncIndex, { immediate: true });
diff --git a/packages/vlossom/src/components/vs-steps/VsSteps.vue b/packages/vlossom/src/components/vs-steps/VsSteps.vue
index 1277ccb..0ddd1bb 100644
--- a/packages/vlossom/src/components/vs-steps/VsSteps.vue
+++ b/packages/vlossom/src/components/vs-steps/VsSteps.vue
@@ -174,14 +174,14 @@ export default defineComponent({
             return base;
         }
 
+        watch(modelValue, syncIndex, { immediate: true });
+
         watch(selectedIndex, (index: number) => {
             stepRefs.value[index]?.focus();
             emit('update:modelValue', index);
             emit('change', index);
         });
 
-        watch(modelValue, syncIndex, { immediate: true });
-
         return {
             // Style
             colorSchemeClass,
diff --git a/packages/vlossom/src/components/vs-tabs/VsTabs.vue b/packages/vlossom/src/components/vs-tabs/VsTabs.vue
index 00864e7..23bc3a7 100644
--- a/packages/vlossom/src/components/vs-tabs/VsTabs.vue
+++ b/packages/vlossom/src/components/vs-tabs/VsTabs.vue
@@ -150,6 +150,7 @@ export default defineComponent({
             findActiveIndexForwardFrom,
             findActiveIndexBackwardFrom,
             selectIndex: selectTab,
+            moveToIndex,
             syncIndex,
             handleKeydown,
             isFirstEdge,
@@ -188,12 +189,12 @@ export default defineComponent({
 
         function goPrev() {
             const targetIndex = findActiveIndexBackwardFrom(selectedIndex.value - 1);
-            selectTab(targetIndex);
+            moveToIndex(targetIndex);
         }
 
         function goNext() {
             const targetIndex = findActiveIndexForwardFrom(selectedIndex.value + 1);
-            selectTab(targetIndex);
+            moveToIndex(targetIndex);
         }
 
         function calculateVisibleTabCount() {
@@ -282,6 +283,8 @@ export default defineComponent({
             }
         });
 
+        watch(modelValue, syncIndex, { immediate: true });
+
         watch(selectedIndex, (index: number) => {
             scrollTo(index);
             emit('update:modelValue', index);
@@ -291,8 +294,6 @@ export default defineComponent({
             });
         });
 
-        watch(modelValue, syncIndex, { immediate: true });
-
         watch(tabs, updateTabsLayout, { deep: true, flush: 'post' });
 
         return {
diff --git a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
index 20e6cd2..5d0f54f 100644
--- a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
+++ b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
@@ -6,6 +6,7 @@ export function useIndexSelector(
     disabled?: Ref<boolean | ((item: any, index: number) => boolean) | undefined>,
 ) {
     const selectedIndex = ref(0);
+    let awaitedIndex = NOT_SELECTED;
 
     function isOutOfRange(index: number): boolean {
         return index < 0 || index > list.value.length - 1;
@@ -87,13 +88,25 @@ export function useIndexSelector(
             return;
         }
         selectedIndex.value = index;
+        awaitedIndex = NOT_SELECTED;
+    }
+
+    function moveToIndex(index: number) {
+        // nowhere to go, the selection stays
+        if (isOutOfRange(index)) {
+            return;
+        }
+        selectIndex(index);
     }
 
     function syncIndex(index: number) {
         if (isOutOfRange(index)) {
             selectedIndex.value = NOT_SELECTED;
+            // the list may be filled later
+            awaitedIndex = index;
         } else {
             selectedIndex.value = index;
+            awaitedIndex = NOT_SELECTED;
         }
     }
 
@@ -118,19 +131,19 @@ export function useIndexSelector(
                 return;
             }
             e.preventDefault();
-            selectIndex(findActiveIndexBackwardFrom(selectedIndex.value - 1));
+            moveToIndex(findActiveIndexBackwardFrom(selectedIndex.value - 1));
         } else if (e.key === keyMap.next) {
             if (isLastEdge.value) {
                 return;
             }
             e.preventDefault();
-            selectIndex(findActiveIndexForwardFrom(selectedIndex.value + 1));
+            moveToIndex(findActiveIndexForwardFrom(selectedIndex.value + 1));
         } else if (e.key === 'Home') {
             e.preventDefault();
-            selectIndex(findActiveIndexForwardFrom(0));
+            moveToIndex(findActiveIndexForwardFrom(0));
         } else if (e.key === 'End') {
             e.preventDefault();
-            selectIndex(findActiveIndexBackwardFrom(list.value.length - 1));
+            moveToIndex(findActiveIndexBackwardFrom(list.value.length - 1));
         }
     }
 
@@ -140,6 +153,9 @@ export function useIndexSelector(
             if (isOutOfRange(selectedIndex.value)) {
                 selectedIndex.value = NOT_SELECTED;
             }
+            if (!isOutOfRange(awaitedIndex)) {
+                syncIndex(awaitedIndex);
+            }
         },
     );
 
@@ -152,6 +168,7 @@ export function useIndexSelector(
         findActiveIndexForwardFrom,
         findActiveIndexBackwardFrom,
         selectIndex,
+        moveToIndex,
         syncIndex,
         handleKeydown,
         isFirstEdge,
-- 
2.43.0


From 64d84254760b6ba4f39dafa7019f1a1d22e48540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:40 +0000
Subject: [PATCH 25/42] fix: forget a table page that stopped existing even
 when the page is not bound

---
 .../src/components/vs-table/composables/table-composable.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
index eeb1a7a..a407e3f 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
@@ -214,8 +214,8 @@ export function useTable(
         initCells(tableCellBuilder.build());
     }
 
-    watch([() => rawPage?.value, page], ([boundPage, currentPage]) => {
-        if (typeof boundPage === 'number' && boundPage !== currentPage) {
+    watch([() => rawPage?.value ?? internalPage.value, page], ([requestedPage, currentPage]) => {
+        if (requestedPage !== currentPage) {
             page.value = currentPage;
         }
     });
-- 
2.43.0


From 2e7a3d7aff674e550e0ef0c8f821b275a5226312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:08 +0000
Subject: [PATCH 26/42] fix: release the space of layout parts that are
 removed, moved or detached

Headers, footers and drawers stayed registered with their layout after
they were unmounted, changed placement or left the layout.
---
 .../src/components/vs-drawer/VsDrawer.vue     | 21 ++++++++---
 .../src/components/vs-footer/VsFooter.vue     | 20 ++++++++---
 .../src/components/vs-header/VsHeader.vue     | 20 ++++++++---
 packages/vlossom/src/stores/layout-store.ts   | 36 ++++++++++++++++++-
 4 files changed, 81 insertions(+), 16 deletions(-)

diff --git a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
index 40e7576..62c3af5 100644
--- a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
+++ b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
@@ -45,7 +45,6 @@ import {
     toRefs,
     useTemplateRef,
     watch,
-    watchEffect,
     type ComputedRef,
     type PropType,
     type TemplateRef,
@@ -56,6 +55,7 @@ import {
     OVERLAY_CLOSE,
     OVERLAY_OPEN,
     VsComponent,
+    type DrawerLayout,
     type DrawerPlacement,
     type FocusableRef,
     type SizeProp,
@@ -195,17 +195,28 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
+        const drawerLayout: ComputedRef<DrawerLayout | null> = computed(() => {
             if (!isLayoutChild.value) {
-                return;
+                return null;
             }
-            layoutStore.setDrawer({
+            return {
                 isOpen: isOpen.value,
                 placement: placement.value,
                 size: drawerSize.value || DRAWER_SIZE.sm,
                 pushContainer: pushContainer.value,
-            });
+            };
         });
+        watch(
+            drawerLayout,
+            (currentLayout, _, onCleanup) => {
+                if (!currentLayout) {
+                    return;
+                }
+                layoutStore.setDrawer(currentLayout);
+                onCleanup(() => layoutStore.removeDrawer(currentLayout));
+            },
+            { immediate: true },
+        );
 
         const layoutStyles = computed(() => {
             if (!isLayoutChild.value) {
diff --git a/packages/vlossom/src/components/vs-footer/VsFooter.vue b/packages/vlossom/src/components/vs-footer/VsFooter.vue
index 7390dad..2292e73 100644
--- a/packages/vlossom/src/components/vs-footer/VsFooter.vue
+++ b/packages/vlossom/src/components/vs-footer/VsFooter.vue
@@ -5,7 +5,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, watch } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -62,16 +62,26 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
+        const footerLayout: ComputedRef<BarLayout | null> = computed(() => {
             if (!isLayoutChild.value) {
-                return;
+                return null;
             }
-            const footerLayout: BarLayout = {
+            return {
                 position: position.value || 'relative',
                 height: (componentStyleSet.value.height as string) || '3rem',
             };
-            layoutStore.setFooter(footerLayout);
         });
+        watch(
+            footerLayout,
+            (barLayout, _, onCleanup) => {
+                if (!barLayout) {
+                    return;
+                }
+                layoutStore.setFooter(barLayout);
+                onCleanup(() => layoutStore.removeFooter(barLayout));
+            },
+            { immediate: true },
+        );
 
         return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
diff --git a/packages/vlossom/src/components/vs-header/VsHeader.vue b/packages/vlossom/src/components/vs-header/VsHeader.vue
index f16268f..75045d8 100644
--- a/packages/vlossom/src/components/vs-header/VsHeader.vue
+++ b/packages/vlossom/src/components/vs-header/VsHeader.vue
@@ -5,7 +5,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, watch } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -62,16 +62,26 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
+        const headerLayout: ComputedRef<BarLayout | null> = computed(() => {
             if (!isLayoutChild.value) {
-                return;
+                return null;
             }
-            const headerLayout: BarLayout = {
+            return {
                 position: position.value || 'relative',
                 height: (componentStyleSet.value.height as string) || '3rem',
             };
-            layoutStore.setHeader(headerLayout);
         });
+        watch(
+            headerLayout,
+            (barLayout, _, onCleanup) => {
+                if (!barLayout) {
+                    return;
+                }
+                layoutStore.setHeader(barLayout);
+                onCleanup(() => layoutStore.removeHeader(barLayout));
+            },
+            { immediate: true },
+        );
 
         return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
diff --git a/packages/vlossom/src/stores/layout-store.ts b/packages/vlossom/src/stores/layout-store.ts
index 2c5a2ba..1a48c01 100644
--- a/packages/vlossom/src/stores/layout-store.ts
+++ b/packages/vlossom/src/stores/layout-store.ts
@@ -1,10 +1,13 @@
 import { ref, type Ref, computed } from 'vue';
-import type { BarLayout, DrawerLayout, DrawerLayouts } from '@/declaration';
+import type { BarLayout, DrawerLayout, DrawerLayouts, DrawerPlacement } from '@/declaration';
 import { objectUtil } from '@/utils';
 
 export class LayoutStore {
     private _header: Ref<BarLayout> = ref({ position: 'relative', height: '' });
     private _footer: Ref<BarLayout> = ref({ position: 'relative', height: '' });
+    private headerSource: BarLayout | null = null;
+    private footerSource: BarLayout | null = null;
+    private drawerSources: Partial<Record<DrawerPlacement, DrawerLayout>> = {};
     private _drawers: Ref<DrawerLayouts> = ref({
         left: { isOpen: false, pushContainer: false, placement: 'left', size: '' },
         top: { isOpen: false, pushContainer: false, placement: 'top', size: '' },
@@ -19,6 +22,8 @@ export class LayoutStore {
     public header = computed(() => this._header.value);
 
     public setHeader(layout: BarLayout) {
+        this.headerSource = layout;
+
         if (objectUtil.isEqual(this._header.value, layout)) {
             return;
         }
@@ -26,9 +31,19 @@ export class LayoutStore {
         this._header.value = layout;
     }
 
+    public removeHeader(layout: BarLayout) {
+        if (this.headerSource !== layout) {
+            return;
+        }
+
+        this.setHeader({ position: 'relative', height: '' });
+    }
+
     public footer = computed(() => this._footer.value);
 
     public setFooter(layout: BarLayout) {
+        this.footerSource = layout;
+
         if (objectUtil.isEqual(this._footer.value, layout)) {
             return;
         }
@@ -36,6 +51,14 @@ export class LayoutStore {
         this._footer.value = layout;
     }
 
+    public removeFooter(layout: BarLayout) {
+        if (this.footerSource !== layout) {
+            return;
+        }
+
+        this.setFooter({ position: 'relative', height: '' });
+    }
+
     public drawers = computed(() => this._drawers.value);
 
     public setDrawers(layouts: DrawerLayouts) {
@@ -44,6 +67,7 @@ export class LayoutStore {
 
     public setDrawer(layout: DrawerLayout) {
         const targetDrawer = this._drawers.value[layout.placement];
+        this.drawerSources[layout.placement] = layout;
 
         if (objectUtil.isEqual(targetDrawer, layout)) {
             return;
@@ -54,4 +78,14 @@ export class LayoutStore {
             [layout.placement]: layout,
         };
     }
+
+    public removeDrawer(layout: DrawerLayout) {
+        const { placement } = layout;
+
+        if (this.drawerSources[placement] !== layout) {
+            return;
+        }
+
+        this.setDrawer({ isOpen: false, pushContainer: false, placement, size: '' });
+    }
 }
-- 
2.43.0


From 05f4f2c23696f72fd26df264f26aab788745d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:54 +0000
Subject: [PATCH 27/42] fix: do not remember a failed GitHub download as an
 answer

---
 .../vlossom-mcp/src/services/github-client.ts |  8 ++++-
 .../src/services/github-registry-service.ts   | 31 +++++++++++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-client.ts b/packages/vlossom-mcp/src/services/github-client.ts
index f785341..64fb29d 100644
--- a/packages/vlossom-mcp/src/services/github-client.ts
+++ b/packages/vlossom-mcp/src/services/github-client.ts
@@ -46,7 +46,13 @@ export interface GitHubContentEntry {
 
 export async function fetchGitHubDirectory(path: string, ref = 'main'): Promise<GitHubContentEntry[]> {
     const cleanPath = path.replace(/^\/+/, '');
-    return fetchGitHubJson<GitHubContentEntry[]>(`/contents/${cleanPath}?ref=${encodeURIComponent(ref)}`);
+    const entries = await fetchGitHubJson<GitHubContentEntry[]>(
+        `/contents/${cleanPath}?ref=${encodeURIComponent(ref)}`,
+    );
+    if (!Array.isArray(entries)) {
+        throw new Error('GitHub returned a malformed directory listing.');
+    }
+    return entries;
 }
 
 export function getRawGitHubUrl(path: string, ref = 'main'): string {
diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index f367683..cef4f2c 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -317,6 +317,11 @@ function isGitHubNotFound(error: unknown): boolean {
     return error instanceof Error && /not found/i.test(error.message);
 }
 
+function emptyWhenNotFound(error: unknown): GitHubContentEntry[] {
+    if (isGitHubNotFound(error)) return [];
+    throw error;
+}
+
 async function fetchRawOptional(path: string, ref: string): Promise<string> {
     try {
         return await fetchRawCached(path, ref);
@@ -402,8 +407,9 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
                 warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
             });
             return resolved;
-        } catch {
-            // try the next candidate ref
+        } catch (error) {
+            // only a missing ref leads to the next candidate; a failed request proves nothing about it
+            if (!isGitHubNotFound(error)) throw error;
         }
     }
 
@@ -479,6 +485,7 @@ export async function getComponentMeta(
         })
         .catch((error: unknown) => {
             componentLookupCache.delete(lookupKey);
+            componentLookupCache.delete(getComponentLookupKey(ref, normalized.kebabName));
             throw error;
         });
     componentLookupCache.set(lookupKey, promise);
@@ -530,7 +537,7 @@ export async function loadDirectives(versionContext: VersionContext): Promise<Di
     const cached = directiveCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(DIRECTIVES_PATH, ref).catch(() => []);
+    const entries = await fetchDirectoryCached(DIRECTIVES_PATH, ref).catch(emptyWhenNotFound);
     const directives = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.startsWith('vs-')),
         GITHUB_FETCH_CONCURRENCY,
@@ -596,7 +603,7 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
     const cached = publicComposableDirsCache.get(ref);
     if (cached) return cached;
 
-    const promise = fetchRawCached(`${COMPOSABLES_PATH}/index.ts`, ref)
+    const promise = fetchRawOptional(`${COMPOSABLES_PATH}/index.ts`, ref)
         .then((content) => {
             const dirs = new Set<string>();
             for (const match of content.matchAll(/from\s+['"]\.\/([^/'"]+)\/[^'"]+['"]/g)) {
@@ -604,7 +611,10 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
             }
             return dirs;
         })
-        .catch(() => new Set<string>());
+        .catch((error: unknown) => {
+            publicComposableDirsCache.delete(ref);
+            throw error;
+        });
     publicComposableDirsCache.set(ref, promise);
     return promise;
 }
@@ -617,7 +627,7 @@ export async function loadComposables(versionContext: VersionContext): Promise<C
 
     const [publicDirs, entries] = await Promise.all([
         loadPublicComposableDirs(ref),
-        fetchGitHubDirectory(COMPOSABLES_PATH, ref).catch(() => []),
+        fetchDirectoryCached(COMPOSABLES_PATH, ref).catch(emptyWhenNotFound),
     ]);
     const composables = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && !entry.name.includes('.') && entry.name !== '__tests__'),
@@ -690,7 +700,7 @@ export async function loadPlugins(versionContext: VersionContext): Promise<Vloss
     const cached = pluginCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(PLUGINS_PATH, ref).catch(() => []);
+    const entries = await fetchDirectoryCached(PLUGINS_PATH, ref).catch(emptyWhenNotFound);
     const plugins = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.endsWith('-plugin')),
         GITHUB_FETCH_CONCURRENCY,
@@ -734,7 +744,10 @@ export async function loadSetupExample(versionContext: VersionContext): Promise<
             const fenced = extractFenceAfter(lines, setupIndex);
             return fenced || SETUP_EXAMPLE_FALLBACK;
         })
-        .catch(() => SETUP_EXAMPLE_FALLBACK);
+        .catch((error: unknown) => {
+            if (!isGitHubNotFound(error)) setupExampleCache.delete(ref);
+            return SETUP_EXAMPLE_FALLBACK;
+        });
     setupExampleCache.set(ref, promise);
     return promise;
 }
@@ -784,7 +797,7 @@ export async function loadCssTokens(versionContext: VersionContext): Promise<Css
     const files = ['variables.css', 'palette.css', 'color-scheme-variables.css'];
     const map = new Map<string, CssToken>();
     for (const file of files) {
-        const css = await fetchRawCached(`${STYLES_PATH}/${file}`, ref).catch(() => '');
+        const css = await fetchRawOptional(`${STYLES_PATH}/${file}`, ref);
         for (const token of parseCssVars(css)) {
             const entry = map.get(token.name) ?? {
                 name: token.name,
-- 
2.43.0


From 0fbb1e48e76371bac52b0e0158916f140ce6aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:54 +0000
Subject: [PATCH 28/42] fix: report the version details of the request itself

---
 .../src/internal/reference/reference-service.ts          | 2 +-
 .../vlossom-mcp/src/services/github-registry-service.ts  | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/reference/reference-service.ts b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
index f389f94..578ee54 100644
--- a/packages/vlossom-mcp/src/internal/reference/reference-service.ts
+++ b/packages/vlossom-mcp/src/internal/reference/reference-service.ts
@@ -122,7 +122,7 @@ async function includeComponentField(
             const path = getComponentSourcePath(meta);
             reference.source = {
                 path,
-                url: getComponentSourceUrl(meta),
+                url: getComponentSourceUrl(meta, versionContext.resolvedRef),
                 missing: true,
                 message: error instanceof Error ? error.message : 'Failed to fetch component source.',
             };
diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index cef4f2c..f5912fe 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -385,7 +385,14 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
 
     const cacheKey = context.detectedVersion ?? 'main';
     const cached = refCache.get(cacheKey);
-    if (cached) return { ...context, ...cached, warnings: [...context.warnings, ...cached.warnings] };
+    if (cached) {
+        return {
+            ...context,
+            resolvedRef: cached.resolvedRef,
+            fallbackRef: cached.fallbackRef,
+            warnings: [...context.warnings, ...cached.warnings],
+        };
+    }
 
     const refs = getCandidateRefs(context.detectedVersion);
     for (const ref of refs) {
-- 
2.43.0


From 0be770856949f9e43250b5834c518875c0ab507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:54 +0000
Subject: [PATCH 29/42] fix: look up a component the same way whatever was
 loaded before

---
 .../vlossom-mcp/src/services/github-registry-service.ts   | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index f5912fe..a0078b6 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -440,7 +440,6 @@ export async function getAllComponentsMeta(versionContext: VersionContext): Prom
     });
     const sorted = components.sort((a, b) => a.name.localeCompare(b.name));
     componentCache.set(ref, sorted);
-    for (const component of sorted) rememberComponentMeta(ref, component);
     return sorted;
 }
 
@@ -474,13 +473,6 @@ export async function getComponentMeta(
 
     const resolved = await resolveGitHubVersionContext(versionContext);
     const ref = resolved.resolvedRef ?? 'main';
-    const all = componentCache.get(ref);
-    if (all) {
-        return all.find(
-            (component) => component.name === normalized.name || component.kebabName === normalized.kebabName,
-        );
-    }
-
     const lookupKey = getComponentLookupKey(ref, normalized.name);
     const cached = componentLookupCache.get(lookupKey);
     if (cached) return cached;
-- 
2.43.0


From 1797ea892ade494e080a918d09b36b92aaa9dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:46:54 +0000
Subject: [PATCH 30/42] fix: share downloads of the changelog and of component
 sources

---
 .../src/services/github-reference-service.ts  | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-reference-service.ts b/packages/vlossom-mcp/src/services/github-reference-service.ts
index db02dd9..809d98e 100644
--- a/packages/vlossom-mcp/src/services/github-reference-service.ts
+++ b/packages/vlossom-mcp/src/services/github-reference-service.ts
@@ -13,8 +13,8 @@ interface GitHubRelease {
     body: string | null;
 }
 
-let changelogCache: ChangelogData | null = null;
-const sourceCache = new Map<string, string>();
+let changelogCache: Promise<ChangelogData> | null = null;
+const sourceCache = new Map<string, Promise<string>>();
 
 export interface ComponentSourceFetchResult {
     path: string;
@@ -80,8 +80,14 @@ function getCurrentVersion(latestVersion: string): string {
 }
 
 export async function fetchChangelog(): Promise<ChangelogData> {
-    if (changelogCache) return changelogCache;
+    changelogCache ??= loadChangelog().catch((error: unknown) => {
+        changelogCache = null;
+        throw error;
+    });
+    return changelogCache;
+}
 
+async function loadChangelog(): Promise<ChangelogData> {
     const releases = await fetchGitHubJson<GitHubRelease[]>('/releases?per_page=100');
     const entries = releases
         .filter((release) => !release.draft)
@@ -102,14 +108,13 @@ export async function fetchChangelog(): Promise<ChangelogData> {
     const latestPrerelease = entries.find((entry) => entry.prerelease)?.version ?? null;
     const latestVersion = entries[0]?.version ?? 'unknown';
 
-    changelogCache = {
+    return {
         latestStable,
         latestPrerelease,
         latestVersion,
         currentVersion: getCurrentVersion(latestVersion),
         entries,
     };
-    return changelogCache;
 }
 
 export function getComponentSourcePath(meta: ComponentMeta): string {
@@ -125,9 +130,12 @@ async function fetchComponentSourceFromRef(path: string, ref: string): Promise<s
     const cached = sourceCache.get(cacheKey);
     if (cached) return cached;
 
-    const source = await fetchGitHubRawText(path, ref);
-    sourceCache.set(cacheKey, source);
-    return source;
+    const promise = fetchGitHubRawText(path, ref).catch((error: unknown) => {
+        sourceCache.delete(cacheKey);
+        throw error;
+    });
+    sourceCache.set(cacheKey, promise);
+    return promise;
 }
 
 export async function fetchComponentSource(
-- 
2.43.0


From 76f8f385362308557b9539c27fb7cdc521dc5168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:57 +0000
Subject: [PATCH 31/42] fix: close a declarative modal when its component is
 removed

The modal is rendered in the overlay area, so it stayed on screen and kept
taking keys after the component that had opened it was unmounted.
---
 packages/vlossom/src/components/vs-modal/VsModal.vue | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-modal/VsModal.vue b/packages/vlossom/src/components/vs-modal/VsModal.vue
index c19ae89..2964ee8 100644
--- a/packages/vlossom/src/components/vs-modal/VsModal.vue
+++ b/packages/vlossom/src/components/vs-modal/VsModal.vue
@@ -1,10 +1,11 @@
 <script lang="ts">
-import { defineComponent, ref, toRefs, watch, computed, onMounted, type Component, type PropType } from 'vue';
+import { defineComponent, ref, toRefs, watch, computed, onMounted, onBeforeUnmount, type Component, type PropType } from 'vue';
 import { VsComponent, OVERLAY_CLOSE, type SizeProp } from '@/declaration';
 import { getColorSchemeProps, getStyleSetProps } from '@/props';
 import { getOverlayProps } from '@/props';
 import type { VsModalNodeStyleSet } from './types';
 import { useVlossom } from '@/framework';
+import { useModalContainerStore } from '@/stores';
 
 const componentName = VsComponent.VsModal;
 export default defineComponent({
@@ -30,6 +31,7 @@ export default defineComponent({
     inheritAttrs: false,
     setup(props, { emit, slots }) {
         const $vs = useVlossom();
+        const modalStore = useModalContainerStore();
         const { modelValue, container, callbacks } = toRefs(props);
 
         const isOpen = ref(false);
@@ -78,6 +80,13 @@ export default defineComponent({
             isOpen.value = modelValue.value;
         });
 
+        onBeforeUnmount(() => {
+            // the modal itself is rendered elsewhere, it would outlive the component that opened it
+            if (isOpen.value) {
+                modalStore.remove(container.value, modalId.value);
+            }
+        });
+
         return () => null;
     },
 });
-- 
2.43.0


From 711822297cd0bf18aaf2121b9bdb706cf8114f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:57 +0000
Subject: [PATCH 32/42] fix: stop listening for outside clicks when an open
 select is removed

---
 packages/vlossom/src/components/vs-select/VsSelect.vue | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index 18c0a73..9b0d6a9 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -120,6 +120,7 @@ import {
     computed,
     defineComponent,
     nextTick,
+    onBeforeUnmount,
     provide,
     ref,
     toRefs,
@@ -568,6 +569,11 @@ export default defineComponent({
             }
         });
 
+        onBeforeUnmount(() => {
+            // the select can be removed while its options are open
+            removeClickOutsideListener();
+        });
+
         return {
             triggerRef,
             searchInputRef,
-- 
2.43.0


From d51285dd7264e5bf98a456282367ad79d029e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:57 +0000
Subject: [PATCH 33/42] fix: deactivate an overlay by the id it was activated
 with

When the id changed while the overlay was active, closing it left the old
entry on the stack, which then swallowed the keys of the overlay below.
---
 .../overlay-callback/overlay-callback-composable.ts      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
index 27393f8..3de2ec9 100644
--- a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
+++ b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
@@ -10,6 +10,8 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
 
     const isActivated = ref(false);
     const isUnmounting = ref(false);
+    // the id can change while the overlay is active
+    let activeId = '';
 
     function activate() {
         isActivated.value = true;
@@ -21,10 +23,11 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
 
     watch(isActivated, (o) => {
         if (o) {
-            overlayCallbackStore.push(overlayId.value, callbacks);
+            activeId = overlayId.value;
+            overlayCallbackStore.push(activeId, callbacks);
         } else {
             isUnmounting.value = true;
-            overlayCallbackStore.remove(overlayId.value);
+            overlayCallbackStore.remove(activeId);
 
             setTimeout(() => {
                 isUnmounting.value = false;
@@ -36,7 +39,7 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
         onBeforeUnmount(() => {
             // the owner can be removed while its overlay is still active
             if (isActivated.value) {
-                overlayCallbackStore.remove(overlayId.value);
+                overlayCallbackStore.remove(activeId);
             }
         });
     }
-- 
2.43.0


From 63404648de362cdc819633d26e89ab99b5e76497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:57 +0000
Subject: [PATCH 34/42] fix: end dragging and ignore late selections when a
 file field is locked

A field that was disabled while something was dragged over it kept showing
the dragging state, and a file dialog opened earlier still changed its value.
---
 .../src/components/vs-file-drop/VsFileDrop.vue        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index 4d8df07..7515300 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -228,7 +228,8 @@ export default defineComponent({
         const hasValue = computed(() => inputValue.value.length > 0);
 
         function setDragging(value: boolean) {
-            if (computedDisabled.value || computedReadonly.value) {
+            // dragging may have started before the field was disabled, so it can always end
+            if (value && (computedDisabled.value || computedReadonly.value)) {
                 return;
             }
 
@@ -295,7 +296,10 @@ export default defineComponent({
                 return;
             }
 
-            setInputValue(files);
+            // the dialog may have been opened before the field was disabled
+            if (!computedDisabled.value && !computedReadonly.value) {
+                setInputValue(files);
+            }
 
             target.value = '';
         }
@@ -303,12 +307,13 @@ export default defineComponent({
         function handleFileDrop(event: DragEvent) {
             const files = Array.from(event.dataTransfer?.files || []);
 
+            setDragging(false);
+
             if (computedDisabled.value || computedReadonly.value) {
                 return;
             }
 
             emit('drop', files);
-            setDragging(false);
             setInputValue(files);
         }
 
-- 
2.43.0


From f6c5f16e8e8e2a418fd3da7781ecf2a323d7a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:09:12 +0000
Subject: [PATCH 35/42] fix: remove the overlay of an owner that is removed
 while its deactivation is pending

---
 .../overlay-callback-composable.ts                 | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
index 3de2ec9..b987445 100644
--- a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
+++ b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
@@ -21,13 +21,19 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
         isActivated.value = false;
     }
 
+    function removeOverlay() {
+        const removedId = activeId;
+        activeId = '';
+        overlayCallbackStore.remove(removedId);
+    }
+
     watch(isActivated, (o) => {
         if (o) {
             activeId = overlayId.value;
             overlayCallbackStore.push(activeId, callbacks);
         } else {
             isUnmounting.value = true;
-            overlayCallbackStore.remove(activeId);
+            removeOverlay();
 
             setTimeout(() => {
                 isUnmounting.value = false;
@@ -37,9 +43,9 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
 
     if (getCurrentInstance()) {
         onBeforeUnmount(() => {
-            // the owner can be removed while its overlay is still active
-            if (isActivated.value) {
-                overlayCallbackStore.remove(activeId);
+            // the owner can be removed while its overlay is still active or its deactivation is pending
+            if (activeId) {
+                removeOverlay();
             }
         });
     }
-- 
2.43.0


From 40c9a0f199cab586ac4e9a887c8cb2fc06edb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:19 +0000
Subject: [PATCH 36/42] fix: keep the highlighted option of a select in step
 with what Enter picks

The highlight stayed behind after closing and was lost when an option was
picked or the list changed, so Enter could pick an option that was not
highlighted.
---
 .../src/components/vs-select/VsSelect.vue     | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index 9b0d6a9..56ad151 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -89,7 +89,10 @@
                             :class="[
                                 'vs-select-option-wrap',
                                 'vs-select-focusable',
-                                { selected: isSelected(itemSlotProps.id) },
+                                {
+                                    selected: isSelected(itemSlotProps.id),
+                                    'vs-focusable-active': isHighlighted(itemSlotProps.id),
+                                },
                             ]"
                             :style="getOptionStyleSet(itemSlotProps.id)"
                             :data-id="itemSlotProps.id"
@@ -444,6 +447,10 @@ export default defineComponent({
             // setTimeout + nextTick을 사용해야 DOM이 완전히 렌더링된 후 스크롤 가능
             setTimeout(() => {
                 nextTick(() => {
+                    if (!isOpen.value) {
+                        return;
+                    }
+
                     addMouseMoveListener();
 
                     const selectedId = selectedOptionIds.value[0];
@@ -464,9 +471,13 @@ export default defineComponent({
             }, 50);
         }
 
+        function isHighlighted(optionId: string): boolean {
+            return currentFocusableElement.value?.dataset?.['id'] === optionId;
+        }
+
         function getOptionStyleSet(optionId: string): CSSProperties {
             const { $focused = {}, $selected = {}, ...base } = componentStyleSet.value.$option ?? {};
-            const isOptionFocused = currentFocusableElement.value?.dataset?.['id'] === optionId;
+            const isOptionFocused = isHighlighted(optionId);
             if (isSelected(optionId)) {
                 return objectUtil.assign(base, $selected);
             }
@@ -482,6 +493,7 @@ export default defineComponent({
             }
 
             removeMouseMoveListener();
+            updateFocusIndex(-1);
             isOpen.value = false;
             emit('close');
 
@@ -557,6 +569,18 @@ export default defineComponent({
             { flush: 'post' },
         );
 
+        // the focused option can move or disappear when the list changes
+        watch(
+            filteredOptions,
+            () => {
+                const focusedId = currentFocusableElement.value?.dataset['id'];
+                if (focusedId) {
+                    updateFocusIndex(getFocusableElements().findIndex((element) => element.dataset['id'] === focusedId));
+                }
+            },
+            { flush: 'post' },
+        );
+
         watch([computedDisabled, computedReadonly], () => {
             closeOptions();
         });
@@ -597,6 +621,7 @@ export default defineComponent({
             openOptions,
             closeOptions,
             isSelected,
+            isHighlighted,
             toggleSelectAll,
             isUsingSearch,
             searchProps,
-- 
2.43.0


From 5140fee38944fe73632befceb7e31a91aba1fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:19 +0000
Subject: [PATCH 37/42] fix: check default rules again when required, min or
 max changes

An input that became required while empty still reported itself valid.
---
 .../input-rules/input-rules-composable.ts     | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
index cb01b8f..cb8b00a 100644
--- a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
+++ b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
@@ -1,4 +1,4 @@
-import { ref, type Ref, computed, watch } from 'vue';
+import { ref, type Ref, computed, shallowRef, watch } from 'vue';
 import type { Rule, StateMessage } from '@/declaration';
 import { logUtil } from '@/utils';
 
@@ -17,14 +17,34 @@ export function useInputRules<T>(
     });
 
     const ruleMessages: Ref<StateMessage[]> = ref([]);
+    const checkedValue = shallowRef(inputValue.value) as Ref<T>;
+    let checkedDefaults = '';
     let checkCount = 0;
 
+    // default rules depend on props (required, min, max, ...) besides the value
+    function getDefaultResults(value: T): string {
+        if (noDefaultRules.value) {
+            return '';
+        }
+        return JSON.stringify(
+            defaultRules.value.map((rule) => {
+                try {
+                    return rule(value);
+                } catch {
+                    return '';
+                }
+            }),
+        );
+    }
+
     function onRuleError(error: unknown) {
         logUtil.error('input-rules', `A rule failed: ${error}`);
     }
 
     async function checkRules() {
         const currentCheck = ++checkCount;
+        checkedDefaults = getDefaultResults(inputValue.value);
+        checkedValue.value = inputValue.value;
         ruleMessages.value = [];
         const pendingRules: Promise<string>[] = [];
 
@@ -70,6 +90,14 @@ export function useInputRules<T>(
         ruleMessages.value.push(...resolvedMessages);
     }
     watch(computedRules, checkRules, { deep: true });
+    watch(
+        () => getDefaultResults(checkedValue.value),
+        (defaultResults) => {
+            if (defaultResults !== checkedDefaults) {
+                checkRules();
+            }
+        },
+    );
 
     return { ruleMessages, checkRules };
 }
-- 
2.43.0


From 857f1473378677d398017d7ccf64537c86fcf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:19 +0000
Subject: [PATCH 38/42] fix: do not mark the radios of a cleared required radio
 set as in error

---
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index b32302e..2d89399 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -33,6 +33,7 @@
                 :readonly="computedReadonly"
                 :state="computedState"
                 :name="resolvedName"
+                no-default-rules
                 no-label
                 no-messages
                 :before-change
-- 
2.43.0


From 87d8930ec46f633fd99499c250001fba52c8f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:01 +0000
Subject: [PATCH 39/42] fix: keep the scroll shadow through re-rendering and
 give back the element's own container type

---
 .../scroll-shadow-directive.ts                | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
index 8c0c891..d56463f 100644
--- a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
+++ b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
@@ -35,16 +35,33 @@ function activate(el: HTMLElement): void {
     el.classList.add(SCROLL_SHADOW_MIXIN_CLASS);
 }
 
+function restore(el: HTMLElement): void {
+    const computedStyle = getComputedStyle(el).getPropertyValue('container-type');
+    if (computedStyle.includes(SCROLL_STATE_VALUE)) {
+        el.classList.add(SCROLL_SHADOW_MIXIN_CLASS);
+        return;
+    }
+    activate(el);
+}
+
 function deactivate(el: HTMLElement): void {
+    if (!originalContainerTypeMap.has(el)) {
+        return;
+    }
+
     el.classList.remove(SCROLL_SHADOW_MIXIN_CLASS);
 
     const originalContainerType = originalContainerTypeMap.get(el);
+    originalContainerTypeMap.delete(el);
+    if (!el.style.containerType.includes(SCROLL_STATE_VALUE)) {
+        // the element has got a container type of its own meanwhile
+        return;
+    }
     if (originalContainerType) {
         el.style.containerType = originalContainerType;
     } else {
         el.style.removeProperty('container-type');
     }
-    originalContainerTypeMap.delete(el);
 }
 
 export const scrollShadow: Directive<HTMLElement, boolean | undefined> = {
@@ -59,13 +76,18 @@ export const scrollShadow: Directive<HTMLElement, boolean | undefined> = {
     },
 
     updated(el, binding) {
-        if (binding.value === binding.oldValue) {
-            return;
-        }
         if (binding.value === false) {
             deactivate(el);
             return;
         }
+        if (originalContainerTypeMap.has(el)) {
+            // rendering the element again restores its own classes and container type
+            restore(el);
+            return;
+        }
+        if (binding.value === binding.oldValue) {
+            return;
+        }
         if (!verifyScrollContainer(el)) {
             return;
         }
-- 
2.43.0


From a36bebc69d95845c73e968a9aff565edce9cf8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:09 +0000
Subject: [PATCH 40/42] fix: show the held radio as checked after one awaiting
 its guard is removed

---
 .../src/components/vs-radio/VsRadio.vue       | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index bce3a08..40a8613 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -46,7 +46,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
+import { computed, defineComponent, nextTick, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
 import { useColorScheme, useSizeClass, useStyleSet, useInput, useStateClass } from '@/composables';
 import { getColorSchemeProps, getInputProps, getResponsiveProps, getStyleSetProps } from '@/props';
 import { VsComponent, type Size } from '@/declaration';
@@ -56,6 +56,10 @@ import type { VsRadioStyleSet } from './types';
 import VsInputWrapper from '@/components/vs-input-wrapper/VsInputWrapper.vue';
 
 const componentName = VsComponent.VsRadio;
+
+// the radios on the page, each bringing its native radio in line with its value
+const checkedSyncs = new Set<(groupName: string) => void>();
+
 export default defineComponent({
     name: componentName,
     components: { VsInputWrapper },
@@ -105,6 +109,9 @@ export default defineComponent({
 
         const inputValue = ref(checked.value ? radioValue.value : modelValue.value);
 
+        // requests its guard has not answered yet
+        let pendingToggles = 0;
+
         const isChecked = computed(() => {
             return objectUtil.isEqual(inputValue.value, radioValue.value);
         });
@@ -146,6 +153,15 @@ export default defineComponent({
                         if (checked.value) {
                             inputValue.value = radioValue.value;
                         }
+                        checkedSyncs.add(syncChecked);
+                    },
+                    onBeforeUnmount: () => {
+                        checkedSyncs.delete(syncChecked);
+                        if (pendingToggles > 0) {
+                            // it has been checked natively in place of another one, which stays
+                            const groupName = name.value;
+                            nextTick(() => checkedSyncs.forEach((sync) => sync(groupName)));
+                        }
                     },
                     onClear: () => {
                         inputValue.value = null;
@@ -173,9 +189,11 @@ export default defineComponent({
 
             if (beforeChangeFn) {
                 let result: boolean | null = false;
+                pendingToggles++;
                 try {
                     result = await beforeChangeFn(inputValue.value, radioValue.value, radioValue.value);
                 } finally {
+                    pendingToggles--;
                     if (!result) {
                         restoreChecked();
                     }
@@ -209,6 +227,12 @@ export default defineComponent({
             }
         }
 
+        function syncChecked(groupName: string) {
+            if (radioRef.value && groupName && name.value === groupName && pendingToggles === 0) {
+                radioRef.value.checked = isChecked.value;
+            }
+        }
+
         function onFocus(e: FocusEvent) {
             emit('focus', e);
         }
-- 
2.43.0


From 309b84497a62e4e81a7792cc78646962c2c4d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:09 +0000
Subject: [PATCH 41/42] fix: keep a held falsy value of a radio set that its
 new options still offer

---
 .../src/composables/input-option/input-option-composable.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/composables/input-option/input-option-composable.ts b/packages/vlossom/src/composables/input-option/input-option-composable.ts
index eb109f1..352ada1 100644
--- a/packages/vlossom/src/composables/input-option/input-option-composable.ts
+++ b/packages/vlossom/src/composables/input-option/input-option-composable.ts
@@ -21,9 +21,9 @@ export function useInputOption(
                 return newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), value));
             });
         } else {
-            const option = newOptions.find((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
+            const isOffered = newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
 
-            if (!option) {
+            if (!isOffered) {
                 inputValue.value = null;
             }
         }
-- 
2.43.0


From e226943fa5b0d235d40fa2504b71705b1e014b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:09 +0000
Subject: [PATCH 42/42] fix: tell the options of checkbox and radio sets apart
 by content, so equal options keep pending choices

---
 .../src/components/vs-checkbox/VsCheckboxSet.vue       |  5 +++--
 .../vlossom/src/components/vs-radio/VsRadioSet.vue     | 10 ++++++++--
 .../input-option/input-option-composable.ts            |  9 ++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index e7be837..8a313a4 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -20,7 +20,7 @@
         <div :class="['vs-checkbox-set', colorSchemeClass, sizeClass, classObj]" :style="componentInlineStyle">
             <vs-checkbox
                 v-for="(option, index) in options"
-                :key="getOptionValue(option)"
+                :key="getOptionKey(option)"
                 ref="checkboxRefs"
                 class="vs-checkbox-item"
                 width="unset"
@@ -139,7 +139,7 @@ export default defineComponent({
 
         const inputValue = ref<any[]>(modelValue.value || []);
 
-        const { getOptionLabel, getOptionValue } = useInputOption(
+        const { getOptionKey, getOptionLabel, getOptionValue } = useInputOption(
             inputValue,
             options,
             optionLabel,
@@ -235,6 +235,7 @@ export default defineComponent({
             checkboxStyleSet,
             shake,
             inputValue,
+            getOptionKey,
             getOptionLabel,
             getOptionValue,
             onCheckboxUpdate,
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index 2d89399..671ba19 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -20,7 +20,7 @@
         <div :class="['vs-radio-set', colorSchemeClass, sizeClass, classObj]" :style="componentInlineStyle">
             <vs-radio
                 v-for="(option, index) in options"
-                :key="getOptionValue(option)"
+                :key="getOptionKey(option)"
                 ref="radioRefs"
                 class="vs-radio-item"
                 width="unset"
@@ -128,7 +128,12 @@ export default defineComponent({
 
         const { componentStyleSet, componentInlineStyle } = useStyleSet<VsRadioSetStyleSet>(componentName, styleSet);
 
-        const { getOptionLabel, getOptionValue } = useInputOption(inputValue, options, optionLabel, optionValue);
+        const { getOptionKey, getOptionLabel, getOptionValue } = useInputOption(
+            inputValue,
+            options,
+            optionLabel,
+            optionValue,
+        );
 
         function requiredCheck(value: any) {
             if (!required.value) {
@@ -219,6 +224,7 @@ export default defineComponent({
             computedReadonly,
             shake,
             inputValue,
+            getOptionKey,
             getOptionLabel,
             getOptionValue,
             resolvedName,
diff --git a/packages/vlossom/src/composables/input-option/input-option-composable.ts b/packages/vlossom/src/composables/input-option/input-option-composable.ts
index 352ada1..6ebe242 100644
--- a/packages/vlossom/src/composables/input-option/input-option-composable.ts
+++ b/packages/vlossom/src/composables/input-option/input-option-composable.ts
@@ -1,5 +1,5 @@
 import { watch, ref, type Ref } from 'vue';
-import { objectUtil } from '@/utils';
+import { objectUtil, stringUtil } from '@/utils';
 import { useOptionLabelValue } from '@/composables/option-label-value/option-label-value-composable';
 
 export function useInputOption(
@@ -29,7 +29,14 @@ export function useInputOption(
         }
     });
 
+    // equal options are the same option, even if they are passed as new objects
+    function getOptionKey(option: any) {
+        const value = getOptionValue(option);
+        return typeof value === 'object' ? stringUtil.convertToString(value) : value;
+    }
+
     return {
+        getOptionKey,
         getOptionLabel,
         getOptionValue,
     };
-- 
2.43.0

