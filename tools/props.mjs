// Source of properties.jsonl:  node tools/props.mjs  writes the file.
import { existsSync, writeFileSync } from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const U = 'packages/vlossom/src/';
const M = 'packages/vlossom-mcp/src/';
const props = [];
function P(id, title, statement, over, text, why, files, mechanism, observe, extra = {}) {
    props.push({
        id,
        title,
        statement,
        quantifier: { over, text },
        why_tests_cant: why,
        anchors: {
            files,
            mechanism: mechanism.map(([name, where]) => ({ name, where })),
            ...(extra.state ? { state: extra.state.map(([name, meaning, where]) => ({ name, meaning, where })) } : {}),
            observe_at: observe,
            hook_needed: false,
        },
    });
}

// ---------------------------------------------------------------- overlays
P(
    'O01',
    'A key press acts on the topmost open overlay and on no other',
    'With any mix of modals, dialogs, drawers and open dropdowns on screen, a key press is handled by the overlay that was opened last among those still open (overlays opened in the same tick count as opened together), and every other overlay stays exactly as it was. When an overlay goes away for whatever reason (closed by code, by the user, by clearing its container, or because the component that owned it was removed), the next key press goes to the one below it. With no overlay open, a key press changes nothing.',
    ['schedules', 'histories', 'fault_sequences'],
    'all interleavings of opening, closing, unmounting and key presses of several overlays of several kinds, including closes whose asynchronous guard is pending, refused or rejected while other overlays open and close',
    'Unit tests push one or two overlays and press one key with everything synchronous; they never remove a lower overlay while an upper one is pending, nor unmount an owner while its overlay is open.',
    [U + 'stores/overlay-callback-store.ts', U + 'composables/overlay-callback/overlay-callback-composable.ts', U + 'components/vs-modal/VsModalNode.vue', U + 'components/vs-drawer/VsDrawer.vue', U + 'plugins/modal-plugin/modal-plugin.ts', U + 'components/vs-select/VsSelect.vue'],
    [['document-level key listener dispatching to the last overlay of a stack', 'stores/overlay-callback-store.ts'], ['push on activation, remove on deactivation', 'composables/overlay-callback']],
    ['which per-overlay key callback runs for a dispatched keydown', 'which overlays are still shown after it'],
);
P(
    'O02',
    'A modal closes only if, when and as its own guard allows',
    'A modal that has a close guard stays open while the guard is undecided, stays open if the guard answers no or fails, and closes once the guard answers anything else. A close request acts on the modal it was addressed to (by identity, or the newest modal of the named container at the time of the request) and never on another modal or overlay that was opened or closed while the guard was deciding. The close call reports success exactly when its modal was closed by it.',
    ['schedules', 'histories', 'fault_sequences'],
    'all interleavings of opens, close requests (by id, by container, by Escape, by backdrop) and guard answers (yes, no, rejected, thrown, slow, never), in one or several containers',
    'Tests use one modal and an immediately resolved guard; the interesting failures need another modal or overlay to appear or disappear between the request and the guard\'s answer.',
    [U + 'plugins/modal-plugin/modal-plugin.ts', U + 'components/vs-modal/VsModalNode.vue', U + 'components/vs-modal/VsModalView.vue', U + 'stores/container-store.ts', U + 'stores/overlay-callback-store.ts'],
    [['awaiting the guard, then removing the modal from two stores', 'plugins/modal-plugin/modal-plugin.ts'], ['guarded Escape and backdrop close', 'components/vs-modal/VsModalNode.vue']],
    ['modals present on screen', 'result of the close calls', 'guard invocations'],
);
P(
    'O03',
    'Every overlay announces opening and closing exactly once, in order',
    'For every overlay that is opened (a modal from code, a declarative modal, or a drawer), the open notification is delivered exactly once and before the close notification, the close notification is delivered exactly once if and only if the overlay closes, and none is delivered after that. This holds no matter how many close requests race for the same overlay and no matter what its callbacks themselves open or close.',
    ['schedules', 'histories', 'fault_sequences'],
    'all interleavings of several racing close requests per overlay (code, Escape, backdrop, container clear) with asynchronous guards, and callbacks that re-enter the overlay API',
    'Tests close an overlay once, through one path, with callbacks that do nothing.',
    [U + 'stores/overlay-callback-store.ts', U + 'composables/overlay-callback/overlay-callback-composable.ts', U + 'components/vs-modal/VsModal.vue', U + 'components/vs-modal/VsModalNode.vue', U + 'components/vs-drawer/VsDrawer.vue'],
    [['open/close callbacks run when pushing to and removing from the overlay stack', 'stores/overlay-callback-store.ts']],
    ['order and number of open/close callbacks and emitted events per overlay'],
);
P(
    'O04',
    'Alert, confirm and prompt settle once, with the answer given to that dialog',
    'The promise of an alert, confirm or prompt settles exactly once, when that very dialog is answered or goes away, and with that dialog\'s answer: confirm yields true only for its own OK or Enter and false otherwise; prompt yields the text entered in its own field only if it passes that field\'s validation, and null when dismissed. Answering one dialog never settles or closes another dialog or overlay that happens to be open at the same time. A settled dialog disappears.',
    ['schedules', 'histories', 'inputs'],
    'all interleavings of opening several dialogs, other modals and drawers, and answering them by buttons, keys, backdrop, close calls and container clears in any order',
    'Tests open one dialog at a time and answer the only overlay present.',
    [U + 'plugins/alert-plugin/alert-plugin.ts', U + 'plugins/confirm-plugin/confirm-plugin.ts', U + 'plugins/prompt-plugin/prompt-plugin.ts', U + 'plugins/modal-plugin/modal-plugin.ts', U + 'stores/overlay-callback-store.ts'],
    [['promise resolved from overlay callbacks', 'plugins/*-plugin'], ['button click routed to the dialog', 'plugins/*-plugin']],
    ['settlement of the returned promises', 'dialogs on screen'],
);
P(
    'O05',
    'Clearing or closing in one container leaves all others untouched',
    'Clearing the modals or toasts of a container removes every modal or toast of that container and closes each of those modals properly (their dialogs\' promises settle, their key handling ends). Overlays of other containers, and overlays of other kinds, stay open and keep working. A container can be reused afterwards.',
    ['schedules', 'histories'],
    'all interleavings of opens, closes, clears and toasts over several containers, including clears while guards are pending, leave animations run and toasts time out',
    'Tests check the store with a single container and no mounted view.',
    [U + 'plugins/modal-plugin/modal-plugin.ts', U + 'plugins/toast-plugin/toast-plugin.ts', U + 'stores/container-store.ts', U + 'stores/overlay-container-store.ts', U + 'framework/OverlayWrapper.vue'],
    [['per-container lists with delete/remove/pop', 'stores/container-store.ts'], ['one teleported view per container and kind', 'framework/OverlayWrapper.vue']],
    ['overlays on screen per container', 'dialog promises'],
);
P(
    'O06',
    'A toast stays for its time, is held while hovered, and then goes',
    'A toast is shown in the container it was sent to and stays visible until its own timeout has elapsed since it appeared (forever when automatic closing is off), unless it is closed, removed or cleared earlier. While the pointer rests on a toast it does not disappear by timeout; if its time ran out meanwhile it disappears when the pointer leaves. Each toast follows its own clock: showing, closing or expiring one never ends, extends or revives another.',
    ['schedules', 'histories', 'fault_sequences', 'configurations'],
    'all timings of showing, hovering, leaving, closing, removing and clearing toasts in several containers and positions, with late timers and stalled frames',
    'Tests mount one toast and advance one timer; hover is never combined with expiry order, removal or other toasts.',
    [U + 'components/vs-toast/VsToast.vue', U + 'components/vs-toast/VsToastView.vue', U + 'plugins/toast-plugin/toast-plugin.ts', U + 'stores/container-store.ts'],
    [['per-toast timer started on mount and hover hold flag', 'components/vs-toast/VsToast.vue']],
    ['toasts on screen over simulated time'],
);
P(
    'O07',
    'A scroll container scrolls again exactly when no scroll lock is held on it',
    'While at least one scroll lock is held on a container, that container cannot scroll from the next frame on; once the last lock on it is released, its inline overflow and padding are back to what they were before the first lock was taken. This holds for locks released in any order, taken and released within one frame, on several containers at once, and released twice.',
    ['schedules', 'histories'],
    'all orders of taking and releasing several locks on several containers and all frame timings between them, with held frames',
    'The composable has no tests.',
    [U + 'composables/scroll-lock/scroll-lock-composable.ts'],
    [['inline style saved on lock, written in the next frame, restored on unlock', 'composables/scroll-lock']],
    ['inline style of the scroll container over simulated frames'],
);
P(
    'O08',
    'A bound overlay and its v-model always end up telling the same story',
    'For a declarative modal, drawer or dimmed layer bound with v-model, once activity stops the overlay is on screen if and only if the bound value is true. A close that is refused by the guard leaves the overlay open and the bound value true; a close by key, backdrop or code leaves both closed.',
    ['schedules', 'histories', 'fault_sequences'],
    'all interleavings of writes to the bound value with user closes, refused, slow or failing guards, and rapid flips within one tick',
    'Tests flip the value once and wait; they never race a user close with a write, or a refusal with another flip.',
    [U + 'components/vs-modal/VsModal.vue', U + 'components/vs-drawer/VsDrawer.vue', U + 'plugins/modal-plugin/modal-plugin.ts'],
    [['watchers in both directions between value and open state', 'components/vs-modal/VsModal.vue, components/vs-drawer/VsDrawer.vue']],
    ['bound value and overlay presence at quiescence'],
);
P(
    'O09',
    'Focus enters an opened overlay, stays inside, and returns when it closes',
    'When a focus-locked modal or drawer opens, keyboard focus moves into it, and Tab or Shift+Tab from its last or first focusable element wraps inside it. When it closes, focus returns to the element that had focus before it opened, provided that element still exists; with nested overlays this unwinds step by step.',
    ['schedules', 'histories', 'configurations'],
    'all nestings and close orders of focus-locked overlays with varying content, at every frame timing between opening, tabbing and closing',
    'Tests exercise one trap in isolation with its focusables fixed.',
    [U + 'components/vs-focus-trap/VsFocusTrap.vue', U + 'components/vs-drawer/VsDrawer.vue', U + 'components/vs-modal/VsModalNode.vue'],
    [['remembers the previously focused element, restores it on unmount, wraps Tab', 'components/vs-focus-trap']],
    ['active element of the document'],
);
// ---------------------------------------------------------------- floating
P(
    'P01',
    'A removed component leaves no listener, observer or late effect behind',
    'After a component is removed from the page at any moment (while open, while a delay or an asynchronous callback is pending, in the middle of a transition), it emits no further events, calls no further user callbacks other than settling what was already asked, raises no error, takes no keys, and leaves none of its content, no listener on the document or window and no active observer. Components that stay on the page also drop the listeners and observers of a floating part once that part is closed.',
    ['schedules', 'crash_points', 'histories'],
    'removal at every possible instant of every interactive component, with late timers, frames, observer deliveries and promise settlements',
    'Tests unmount after quiescence, if at all; a leak needs removal inside a specific window (for example between becoming visible and the next tick).',
    [U + 'composables/positioning/positioning-composable.ts', U + 'composables/click-outside/click-outside-composable.ts', U + 'components/vs-tooltip/VsTooltip.vue', U + 'components/vs-select/VsSelect.vue', U + 'components/vs-toast/VsToast.vue', U + 'components/vs-visible-render/VsVisibleRender.vue', U + 'directives/vs-scroll-shadow', U + 'components/vs-search-input/VsSearchInput.vue'],
    [['listeners and observers attached after a tick, detached on hide or unmount', 'composables/positioning, composables/click-outside, directives/vs-scroll-shadow'], ['timers and debounced functions outliving their component', 'components']],
    ['listeners registered on window and document', 'observers not disconnected', 'events and callbacks after removal', 'errors'],
);
P(
    'P02',
    'Open floating content sits where its target is now',
    'Whenever floating content (a tooltip, an open dropdown) is on screen and the page scrolls or its target, itself or the viewport changes size, the content is placed at the position given by its placement, alignment and margin relative to the target\'s current place within a tenth of a second, switching to the opposite side when there is no room on the requested side and more on the other. While nothing moves its position does not change.',
    ['schedules', 'inputs', 'configurations'],
    'all timings of open, close, scroll, resize and target moves, all geometries, placements, alignments and margins',
    'The composable has no tests of its own; component tests have zero-sized geometry.',
    [U + 'composables/positioning/positioning-composable.ts', U + 'components/vs-floating/VsFloating.vue', U + 'components/vs-tooltip/VsTooltip.vue'],
    [['throttled position computation on scroll, resize and observer events', 'composables/positioning']],
    ['inline left/top of the floating element compared with simulated geometry'],
);
P(
    'P03',
    'A tooltip shows while its trigger asks for it, and only then',
    'A hover tooltip appears after its enter delay when the pointer stays on the trigger, stays while the pointer is on the trigger or on its hoverable content, and disappears after its leave delay when the pointer has left both; a click tooltip does the same once its trigger has been clicked and goes when the trigger is clicked again, and Escape dismisses both. A quick pass of the pointer that ends before the enter delay shows nothing, and once activity stops the tooltip\'s visibility matches the pointer\'s final place. A disabled tooltip never appears, and one that is neither on screen nor about to appear takes no keys.',
    ['schedules', 'histories', 'configurations'],
    'all pointer, click and key sequences at all time offsets around the enter and leave delays, with late timers',
    'Tests enter or leave once and wait; re-entry during a delay or leave animation is not covered.',
    [U + 'components/vs-tooltip/VsTooltip.vue', U + 'components/vs-floating/VsFloating.vue', U + 'composables/positioning/positioning-composable.ts', U + 'composables/click-outside/click-outside-composable.ts'],
    [['trigger/content hover flags and enter/leave timers', 'components/vs-tooltip, components/vs-floating']],
    ['tooltip content on screen over simulated time'],
);
// ---------------------------------------------------------------- inputs
P(
    'F01',
    'Messages and validity describe the current value, whatever the rule timing',
    'Once activity stops, the messages an input shows and the validity it reports are exactly those its rules and messages (its own demands such as required and limits included, as set now) produce for the value it holds now, each once, whatever order asynchronous rules of this and earlier values settle in, and it is marked as in error exactly while it shows a rule message. A result computed for an earlier value never appears or influences validity once the value has changed, and a rule that fails (rejects or throws) never breaks later validation.',
    ['schedules', 'histories', 'fault_sequences'],
    'all settle orders of asynchronous rules and messages over all sequences of edits, rule and limit changes, validations and clears',
    'Tests use one asynchronous rule that settles before the next edit.',
    [U + 'composables/input-rules/input-rules-composable.ts', U + 'composables/input-messages/input-messages-composable.ts', U + 'composables/input/input-composable.ts', U + 'components/vs-input/VsInput.vue', U + 'components/vs-input-wrapper/VsInputWrapper.vue'],
    [['list reset, synchronous results pushed, pending results awaited and pushed', 'composables/input-rules, composables/input-messages']],
    ['messages on screen', 'validity state', 'result of validate()'],
);
P(
    'F02',
    'A form is valid exactly when every field in it is valid',
    'Validating a form answers true exactly when every field currently mounted in it is valid for its current value, and otherwise reports the fields that are not; fields that were removed no longer count and fields added later do. The form\'s changed and valid state follows its fields the same way, and validating a form shows each failing field\'s messages.',
    ['schedules', 'histories'],
    'all interleavings of field mounting, unmounting, edits, asynchronous rules, validation, clearing and disabling',
    'Tests mount a fixed set of fields; fields appearing and disappearing around validation are not covered.',
    [U + 'components/vs-form/VsForm.vue', U + 'stores/form-store.ts', U + 'composables/input-form/input-form-composable.ts', U + 'composables/input/input-composable.ts'],
    [['per-field valid/changed maps and broadcast flags', 'stores/form-store.ts, composables/input-form']],
    ['result of form validate()', 'emitted valid/changed/error', 'messages on screen'],
);
P(
    'F03',
    'Clearing fields resets them fully, even while validation is pending',
    'After a field or its form is cleared and activity stops, the field holds its empty value, its bound model agrees, it is not marked changed, and it shows no message from validation that was requested before the clear. Editing or validating afterwards behaves as on a fresh field.',
    ['schedules', 'histories', 'fault_sequences'],
    'clears at every instant relative to edits, asynchronous rule settlement and validation, for every kind of field',
    'Tests clear an idle field.',
    [U + 'composables/input/input-composable.ts', U + 'components/vs-form/VsForm.vue', U + 'components/vs-input/VsInput.vue', U + 'components/vs-textarea/VsTextarea.vue', U + 'components/vs-select/VsSelect.vue', U + 'components/vs-checkbox/VsCheckbox.vue', U + 'components/vs-radio/VsRadio.vue', U + 'components/vs-switch/VsSwitch.vue'],
    [['clear resets value, then rechecks on the next tick and resets changed', 'composables/input']],
    ['model value, messages, changed state'],
);
P(
    'F04',
    'A guarded toggle changes only when its guard says yes, and then correctly',
    'A switch, checkbox or radio with a change guard keeps its value while the guard is undecided and when the guard answers no or fails, and what the control shows equals its value once activity stops. When the guard answers yes the change the user asked for takes effect on the value held at that moment; with several requests in flight every approved one takes effect and no approved or earlier selection is lost. The guard is asked once per request, with the current value and the value being asked for.',
    ['schedules', 'histories', 'fault_sequences'],
    'all interleavings of user toggles, external writes to the model and guard answers (yes, no, reject, slow) for switches, checkboxes, radios and their sets',
    'Tests toggle once with an immediate guard.',
    [U + 'components/vs-switch/VsSwitch.vue', U + 'components/vs-checkbox/VsCheckbox.vue', U + 'components/vs-checkbox/VsCheckboxSet.vue', U + 'components/vs-radio/VsRadio.vue', U + 'components/vs-radio/VsRadioSet.vue', U + 'composables/value-matcher/value-matcher-composable.ts'],
    [['target value computed, guard awaited, value applied', 'components/vs-switch, vs-checkbox, vs-radio']],
    ['model value', 'native checked state', 'guard calls', 'emitted updates'],
);
P(
    'F05',
    'An input and its bound model converge, one update per real change',
    'For every input kind, once activity stops the value shown, the component\'s value and the bound model agree, and the last writer (user or program) wins. Every edit by the user produces exactly one model update and one change notification carrying the value then held; a program\'s write to the model is shown and is never echoed back as a different value. Read-only and disabled inputs never change by user action.',
    ['schedules', 'histories', 'inputs'],
    'all interleavings of typing, clearing, programmatic writes, type/readonly/disabled switches and re-renders, including several within one tick',
    'Tests do one edit or one write at a time with awaited ticks.',
    [U + 'composables/input/input-composable.ts', U + 'components/vs-input/VsInput.vue', U + 'components/vs-textarea/VsTextarea.vue', U + 'components/vs-switch/VsSwitch.vue', U + 'components/vs-checkbox/VsCheckbox.vue', U + 'components/vs-radio/VsRadio.vue', U + 'composables/string-modifier/string-modifier-composable.ts'],
    [['watchers in both directions between internal value and model', 'composables/input']],
    ['shown value, model, emitted events'],
);
P(
    'F06',
    'A debounced search reports the last text once, and nothing stale',
    'A search box reports a search after typing has paused for the debounce time, once per pause and with the text then in the box; a burst of typing yields one report. Text set from outside or cleared is never overwritten by an older pending report, and matching done by the box uses the text and switches (case, pattern) in effect.',
    ['schedules', 'histories'],
    'all timings of keystrokes, clears, external writes, mode switches and unmounts around the debounce time, with late timers',
    'Tests type once and advance the clock once.',
    [U + 'components/vs-search-input/VsSearchInput.vue', U + 'utils/function-util.ts'],
    [['debounced emission 400 ms after the last keystroke', 'components/vs-search-input']],
    ['search events over simulated time', 'model value'],
);
P(
    'F07',
    'A dropdown select shows and reports exactly the options chosen',
    'Once activity stops, the options a select marks as chosen are exactly those in its bound model (in multiple mode as a set without duplicates), whatever sequence of picks, removals, select-all, clears, external writes and option list changes led there. A pick is reported once, with the resulting value, and changing the option list alone never reports a value the user did not choose.',
    ['schedules', 'histories', 'inputs'],
    'all interleavings of opening, picking, deselecting, chip removal, select-all, external model writes and option list replacement, in single and multiple mode',
    'Tests perform one pick from a fresh mount.',
    [U + 'components/vs-select/VsSelect.vue', U + 'composables/input-option/input-option-composable.ts', U + 'composables/option-list/option-list-composable.ts', U + 'composables/value-matcher/value-matcher-composable.ts'],
    [['selected option ids kept in step with the value by watchers', 'components/vs-select']],
    ['model, chosen options on screen, emitted events'],
);
P(
    'F08',
    'A dropdown opens and closes as last asked',
    'Once activity stops, a select\'s option list is on screen exactly when the last request (trigger click, key, click outside, Escape, pick in single mode, disabling, removal) left it open; rapid opening and closing never leaves it stuck half open, open without reacting, or closed and out of focus but still swallowing keys. Each opening and each closing is announced once.',
    ['schedules', 'histories'],
    'all sequences of toggles, outside clicks, keys and picks at all offsets around the open and close delays, with late timers and stalled frames',
    'Tests open once and close once with long waits.',
    [U + 'components/vs-select/VsSelect.vue', U + 'components/vs-floating/VsFloating.vue', U + 'composables/click-outside/click-outside-composable.ts', U + 'composables/overlay-callback/overlay-callback-composable.ts'],
    [['open/close delays, overlay registration and click-outside listener', 'components/vs-select']],
    ['option list presence, open/close events, expanded state'],
);
P(
    'F09',
    'Feedback states last their full time from the latest trigger',
    'When feedback is triggered again before the previous feedback has ended (copying again, failing validation again), the feedback stays on for its full duration counted from the latest trigger and then ends once. Feedback never stays on for good and never shows for an action that failed, and a copy puts the text shown at that moment on the clipboard.',
    ['schedules', 'histories', 'fault_sequences'],
    'all spacings of repeated triggers around the feedback duration, with clipboard failures, late timers and unmounts',
    'Tests trigger once and advance past the end.',
    [U + 'components/vs-text-wrap/VsTextWrap.vue', U + 'components/vs-input-wrapper/VsInputWrapper.vue'],
    [['one timer per trigger resetting a flag', 'components/vs-text-wrap, components/vs-input-wrapper']],
    ['copied indication and shake class over simulated time', 'copied events'],
);
P(
    'F10',
    'A file field accepts a selection as a whole and reports what it holds',
    'A file field holds exactly the files of the last accepted selection minus those removed since; a selection that breaks the count limits or, without multiple mode, offers several files is refused as a whole, leaves the held files unchanged and says why. Dragging state is shown only while something is dragged over the field, and a disabled or read-only field takes nothing.',
    ['histories', 'inputs', 'schedules'],
    'all sequences of drags, drops, dialog selections, removals, clears, model writes and limit changes, interleaved at tick granularity',
    'Tests drop once on a fresh field.',
    [U + 'components/vs-file-drop/VsFileDrop.vue', U + 'composables/input/input-composable.ts'],
    [['count check, value replacement and component messages', 'components/vs-file-drop']],
    ['model, file list on screen, messages, drop events'],
);
P(
    'F11',
    'One highlight moves through an open dropdown, and keys act on what it shows',
    'While a select\'s list is open at most one entry is highlighted: the list opens at its search field or else at the first chosen option, Down and Up move the highlight one entry without leaving the list or stopping at a disabled option, Home and End go to its ends, and the pointer moving onto an entry highlights it. Enter and Space act on exactly the entry shown highlighted at that moment, once, and on nothing if none is, whatever picks, searches, option changes, closings and reopenings came before. These keys do not scroll the page meanwhile.',
    ['schedules', 'histories', 'inputs'],
    'all interleavings of keys, pointer moves, clicks, searches, option list changes, writes, closings and reopenings around the opening delay, in single and multiple mode',
    'Tests press one key in a list that was just opened.',
    [U + 'components/vs-select/composables/select-keyboard-composable.ts', U + 'composables/focusable/focusable-composable.ts', U + 'components/vs-select/VsSelect.vue'],
    [['index of the highlighted element, re-resolved against the elements on screen', 'composables/focusable, components/vs-select/composables']],
    ['highlighted entry on screen, model, picks announced'],
);
P(
    'F12',
    'A set of choices drops exactly the choices its options no longer offer',
    'When the options of a checkbox set or radio set are replaced, the set keeps exactly those of its held values that the new options still offer, in the order held, and tells its bound model once if that dropped something and not at all otherwise; a value written together with new options is kept. At every settled moment it shows one box per option, in order and with its label, of which exactly the held ones are checked. Options are told apart by their content: the same options passed anew disturb neither held values nor a choice whose guard is still deciding, while such a choice has no effect once its option is gone.',
    ['schedules', 'histories', 'inputs', 'fault_sequences'],
    'all interleavings of choices, guard answers and failures, outside writes and option replacements (several within one tick), for options given as texts, numbers and objects with or without label and value keys',
    'Tests replace options once, while nothing is pending, with truthy values.',
    [U + 'composables/input-option/input-option-composable.ts', U + 'composables/option-label-value/option-label-value-composable.ts', U + 'components/vs-checkbox/VsCheckboxSet.vue', U + 'components/vs-radio/VsRadioSet.vue', U + 'components/vs-radio/VsRadio.vue'],
    [['watcher on the options filtering the held value, boxes keyed by value', 'composables/input-option, components/vs-checkbox, components/vs-radio']],
    ['boxes and labels on screen, model, updates, guard calls'],
);
// ---------------------------------------------------------------- data views
P(
    'D01',
    'A table shows exactly the rows its items, search, sort and page call for',
    'At every settled moment a table shows the items that match the current search, in the current sort order, cut to the current page, and reports the same rows and totals outward; the shown page always exists. The sort of a column cycles ascending, descending, unsorted starting anew for each column, unsorted restores the original order, and equal keys keep it.',
    ['schedules', 'histories', 'inputs', 'configurations'],
    'all interleavings of item replacement, search typing (debounced), header clicks, page and page size changes from inside and outside, in client and server mode',
    'Tests check each feature alone from a fresh mount; combinations and histories are not covered.',
    [U + 'components/vs-table/composables', U + 'components/vs-table/VsTable.vue', U + 'components/vs-table/VsTableHeader.vue', U + 'components/vs-table/VsTableBody.vue', U + 'components/vs-table/VsTablePagination.vue'],
    [['search filter, sort and slice over built cells', 'components/vs-table/composables']],
    ['row cells on screen', 'emitted paged and total items, page'],
);
P(
    'D02',
    'Table selection and expansion follow the items, not their position',
    'The rows marked selected or expanded are always those of the items selected or expanded, through searching, sorting, paging and item replacement; the bound selection contains each selected item once and only selectable ones. The select-all box is checked exactly when every selectable item is selected, indeterminate exactly when some but not all are, and toggling it selects all selectable items or none.',
    ['schedules', 'histories', 'inputs'],
    'all interleavings of row toggles, select-all, sort, search, paging, external selection writes and item replacement',
    'Tests select on a static table.',
    [U + 'components/vs-table/composables', U + 'components/vs-table/VsTableBodyRow.vue', U + 'components/vs-table/VsTableCheckboxCell.vue'],
    [['selected item list mirrored between component and model', 'components/vs-table/composables']],
    ['row checkbox state, header checkbox state, bound selection, expanded panels'],
);
P(
    'D03',
    'Tabs, steps and pagination keep one valid, agreed selection',
    'At every settled moment the entry marked current in tabs, steps or a pager is the one the bound value names, nothing is marked when that names no entry, and every change was reported outside exactly once, with nothing reported when nothing changed. A click, key or step button moves only to an existing enabled entry, the nearest in its direction, and leaves the selection alone when there is none. This holds whichever entries appear, vanish or become disabled and whatever is written from outside in between, and a bound index whose entry arrives later is honoured then.',
    ['schedules', 'histories', 'inputs', 'programs'],
    'all sequences of clicks, keys, step buttons, calls, external writes, entry list and disabled changes, including several in one tick',
    'Tests click once on a fixed list of entries.',
    [U + 'components/vs-tabs/VsTabs.vue', U + 'components/vs-steps/VsSteps.vue', U + 'components/vs-pagination/VsPagination.vue', U + 'composables/list-index-selector/list-index-selector-composable.ts'],
    [['selected index kept in step with the bound value', 'composables/list-index-selector and components']],
    ['current entry on screen, bound value, change events'],
);
P(
    'D04',
    'An expandable panel ends in the state last asked for',
    'Once activity and transitions stop, an expandable or accordion panel shows its content exactly when it was last asked to be open, with no leftover fixed height, and a bound value agrees with it. Interrupting an opening or closing transition, or transitions ending inside the content, never leaves the panel half open, clipped or announced wrongly.',
    ['schedules', 'histories', 'fault_sequences'],
    'all toggle timings relative to frames and transition-end deliveries, including transition ends bubbling from content and transition ends that come late',
    'Tests disable transitions.',
    [U + 'components/vs-expandable/VsExpandable.vue', U + 'components/vs-accordion/VsAccordion.vue'],
    [['height transition driven by frame callbacks and transition-end listeners', 'components/vs-expandable']],
    ['content presence, inline height, bound value, open/close events'],
);
P(
    'D05',
    'An image shows its source, its fallback, or its error, for the current source',
    'Once loading stops, an image shows the current source if it loaded, otherwise the fallback if that loaded, otherwise its error state; an outcome of an earlier source never changes what is shown for the current one. A failing source is reported once per failure, and a lazy image requests its source only after it has come into view.',
    ['schedules', 'histories', 'fault_sequences'],
    'all orders of source and fallback changes, load successes and failures, and visibility deliveries',
    'Tests fire one error event on a fixed source.',
    [U + 'components/vs-image/VsImage.vue'],
    [['load/error handlers switching to fallback, visibility observer', 'components/vs-image']],
    ['requested sources, displayed state, error events'],
);
P(
    'D06',
    'Deferred rendering shows what is near view and never loses content',
    'Content under deferred rendering is rendered once it has come into view and hidden again only when it has left view, following the latest visibility of each element whatever order visibility reports arrive in relative to content changes. Elements added later are tracked too, and removed ones are no longer watched.',
    ['schedules', 'histories'],
    'all interleavings of visibility reports, element insertion and removal, and disabling',
    'Tests trigger one visibility report.',
    [U + 'components/vs-visible-render/VsVisibleRender.vue'],
    [['intersection and mutation observers toggling element visibility', 'components/vs-visible-render']],
    ['visibility of tracked elements, observed element set'],
);
// ---------------------------------------------------------------- system
P(
    'S01',
    'The theme is applied, remembered and restored, even if storage fails',
    'The page\'s dark marker always equals the current theme; toggling flips it and is remembered so that the next start restores it, a remembered theme outranks the system preference and the configured default. If storage is unavailable, full or holds garbage, starting up and toggling still work for the session and never throw.',
    ['histories', 'fault_sequences', 'crash_points', 'configurations'],
    'all sequences of starts, toggles, theme assignments and restarts with storage reads or writes failing or returning arbitrary content at any of them',
    'Tests mock storage that always works.',
    [U + 'framework/vlossom-class.ts', U + 'framework/vlossom-plugin.ts', U + 'stores/options-store.ts', U + 'components/vs-theme-button/VsThemeButton.vue'],
    [['theme setter, toggle with persistence, default at construction', 'framework/vlossom-class.ts']],
    ['dark marker on the page, theme value, stored preference'],
);
P(
    'S02',
    'A layout reserves exactly the space its mounted parts take',
    'Once activity stops, the content area of a layout reserves space for exactly the header, footer and drawers that are mounted, responsive to the layout and open at that moment, with their current sizes, whatever order they were mounted, resized, opened, closed and removed in. Drawers of a layout keep clear of exactly the header and footer that take space there. Parts of one layout, and parts nested inside its content, never affect another layout.',
    ['schedules', 'histories', 'configurations'],
    'all interleavings of mounting, unmounting, opening, closing and resizing of the parts of one or several layouts',
    'Tests mount a fixed arrangement.',
    [U + 'stores/layout-store.ts', U + 'components/vs-layout/VsLayout.vue', U + 'components/vs-container/VsContainer.vue', U + 'components/vs-header/VsHeader.vue', U + 'components/vs-footer/VsFooter.vue', U + 'components/vs-drawer/VsDrawer.vue', U + 'composables/layout-child/layout-child-composable.ts'],
    [['parts write their size to a per-layout store read by the content area', 'stores/layout-store.ts']],
    ['inline padding of the content area'],
);
P(
    'S03',
    'A scroll shadow comes and goes without disturbing the element it is on',
    'A scrollable element with the scroll shadow switched on always carries the shadow marker and, besides its own container type, the scroll state type, through every re-rendering of the element with other classes and styles. As soon as the shadow is switched off, and on an element that cannot scroll, there is no marker and the container type is exactly the element\'s own.',
    ['histories', 'configurations'],
    'all sequences of switching (on, off, unset), class changes, own style changes, re-renderings and remounts, several within one tick',
    'Tests switch once on an element that is never rendered again.',
    [U + 'directives/vs-scroll-shadow/scroll-shadow-directive.ts', U + 'components/vs-inner-scroll/VsInnerScroll.vue'],
    [['original container type remembered per element while the shadow is on', 'directives/vs-scroll-shadow']],
    ['class and inline style of the element'],
);
P(
    'S04',
    'A component looks as its own and the application\'s settings say now',
    'At every settled moment each component shows the colour scheme set on it, or else the one the application sets for its kind, or else the application\'s default; "none" set on it means none. It shows exactly the styling of its own style set, or of the set it names as the application registers it now, part by part over what is built in and under sizes set on it directly. Changed application settings reach every mounted component, nothing set for one component shows on another, and the settings handed over are never altered.',
    ['histories', 'configurations'],
    'all sequences of changes of application settings and of components\' own settings, several within one tick, with settings shared between components, for all components that take them',
    'Tests resolve one component under settings that never change.',
    [U + 'composables/color-scheme/color-scheme-composable.ts', U + 'composables/style-set/style-set-composable.ts', U + 'stores/options-store.ts', U + 'framework/vlossom-class.ts', U + 'components/vs-button/VsButton.vue', U + 'components/vs-loading/VsLoading.vue'],
    [['settings resolved by derived values over the application-wide store', 'composables/color-scheme, composables/style-set, stores/options-store.ts']],
    ['classes and inline styles of the components and their parts'],
);
// ---------------------------------------------------------------- MCP server
P(
    'M01',
    'A failed download is never remembered as an answer',
    'After any number of failed, refused, rate-limited or garbled downloads, as soon as the network works again every request gets the answer a freshly started server would give. A temporary failure is never turned into a lasting "does not exist", "nothing found", empty list, or switch to another version.',
    ['fault_sequences', 'histories', 'schedules'],
    'all sequences of requests with network faults (error status, rate limit, connection failure, broken body) at any download, followed by recovery',
    'Tests stub the network per test with one fixed outcome and reset nothing in between.',
    [M + 'services/github-registry-service.ts', M + 'services/github-client.ts', M + 'services/github-reference-service.ts'],
    [['promise and result caches per revision', 'services/github-registry-service.ts'], ['errors swallowed into empty results', 'services/github-registry-service.ts']],
    ['tool and resource answers after recovery compared with a fresh server'],
);
P(
    'M02',
    'Every answer comes from the revision that matches the requested version',
    'An answer for a requested version (given directly or through a package manifest) is built only from the repository revision that matches it: the release tag in its known spellings if one exists, otherwise the main line together with a warning saying so. The reported version details (requested version, detected version, origin, revision) are those of the request itself, and answers for different versions never mix.',
    ['histories', 'schedules', 'inputs', 'fault_sequences'],
    'all sequences and interleavings of requests for different versions, spellings and origins over repositories with different sets of tags',
    'Tests resolve one version per process with a stubbed network.',
    [M + 'services/github-registry-service.ts', M + 'internal/version/version-service.ts'],
    [['candidate revisions probed in order, result cached by version', 'services/github-registry-service.ts']],
    ['URLs requested, version context and content of answers'],
);
P(
    'M03',
    'Concurrent requests are answered as if each were alone',
    'Whatever requests are in flight together and in whatever order their downloads complete, each request receives the answer it would receive alone on a fresh server with the same repository, and identical requests receive identical answers.',
    ['schedules', 'histories'],
    'all interleavings of tool calls and resource reads and all completion orders of their downloads',
    'Tests issue one call at a time.',
    [M + 'services/github-registry-service.ts', M + 'internal/search/component-search-service.ts', M + 'internal/reference/reference-service.ts', M + 'internal/validation', M + 'internal/scaffold'],
    [['shared module-level caches of in-flight promises', 'services/github-registry-service.ts']],
    ['answers compared with a fresh server answering the request alone'],
);
P(
    'M04',
    'Downloads are shared, bounded and not repeated',
    'A file or directory of a revision that has been downloaded successfully is not downloaded again, and requests that need it at the same time share one download. Building a listing never has more than a fixed small number of downloads in flight, and every request ends after finitely many downloads.',
    ['schedules', 'histories', 'fault_sequences'],
    'all interleavings of requests and download completion orders, with and without failures',
    'Tests count calls of a single request.',
    [M + 'services/github-registry-service.ts', M + 'services/github-client.ts'],
    [['promise caches and a bounded worker pool', 'services/github-registry-service.ts']],
    ['downloads per URL and number in flight'],
);
P(
    'M05',
    'Every request gets one well-formed answer, however the network behaves',
    'Every tool call and resource read gets exactly one reply that conforms to the tool\'s declared output, within bounded time after its downloads have ended, however many of them fail or return malformed content. If what was asked for could not be fetched the reply says so as an error (only the source text and the setup example may be left out or replaced on their own) and never claims that the thing does not exist or that the code is valid, and the server keeps serving.',
    ['fault_sequences', 'schedules', 'inputs'],
    'all requests with faults at any subset of downloads, including malformed directory listings and metadata',
    'Tests cover one failure mode per tool.',
    [M + 'tools', M + 'resources/core-resources.ts', M + 'services/github-client.ts', M + 'services/github-registry-service.ts', M + 'utils/register-tool.ts'],
    [['errors mapped to a structured error result', 'tools and internal services']],
    ['protocol replies, status field, later requests'],
);
P(
    'M06',
    'The session trace counts the calls of the session and no others',
    'The trace attached to each answer lists, in completion order and once each, the calls completed since the session began: a session begins with a search or after the idle limit has passed without calls. Durations and totals add up, and calls of an expired session never reappear. Searches and scaffoldings stand at the root of the trace; every other call points to the latest of them listed before it, if any.',
    ['schedules', 'histories', 'configurations'],
    'all sequences and overlaps of calls at all spacings around the idle limit, with all limit settings',
    'Tests record steps back to back in one process.',
    [M + 'utils/mcp-response.ts', M + 'tools'],
    [['module-level step list with last-activity time', 'utils/mcp-response.ts']],
    ['trace metadata of the answers'],
);

// only properties that a world decides are published
const { properties: decided } = await import('../sim/worlds/index.mjs');
const published = props.filter((p) => decided.includes(p.id));
const out = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '../properties.jsonl');
const repo = process.env.VERIF_REPO || '/repo';
for (const p of props) {
    if (p.title.length > 80) throw new Error(`${p.id} title too long: ${p.title.length}`);
    const sentences = p.statement.split(/[.!?](?:\s|$)/).filter(Boolean).length;
    if (sentences > 3) throw new Error(`${p.id} has ${sentences} sentences`);
    for (const f of p.anchors.files) if (!existsSync(path.join(repo, f))) throw new Error(`${p.id}: no ${f}`);
}
writeFileSync(out, published.map((p) => JSON.stringify(p)).join('\n') + '\n');
console.log(published.length, 'of', props.length, 'properties');
export { published, props };
