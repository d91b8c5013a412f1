// The dispatcher under test (WHICH_LOOP: 0 std thread, 1 GLib, 2 GLibmm, 3 Qt) and the thread which runs its event loop.
#pragma once
#include <functional>
#include <memory>
#include <thread>

#ifndef WHICH_LOOP
#define WHICH_LOOP 0
#endif
#if WHICH_LOOP == 0
#include "hsmcpp/HsmEventDispatcherSTD.hpp"
using Dispatcher = hsmcpp::HsmEventDispatcherSTD;
#elif WHICH_LOOP == 1
#include "hsmcpp/HsmEventDispatcherGLib.hpp"
using Dispatcher = hsmcpp::HsmEventDispatcherGLib;
#elif WHICH_LOOP == 2
#include "hsmcpp/HsmEventDispatcherGLibmm.hpp"
using Dispatcher = hsmcpp::HsmEventDispatcherGLibmm;
#else
#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QTimer>
#include "hsmcpp/HsmEventDispatcherQt.hpp"
#undef slots
#undef emit
#undef signals
using Dispatcher = hsmcpp::HsmEventDispatcherQt;
#endif
#include "sched.hpp"

namespace loop {
#if WHICH_LOOP == 0
inline std::shared_ptr<Dispatcher> create(size_t cap) { return Dispatcher::create(cap); }
inline void begin() {}
inline void end(const std::shared_ptr<Dispatcher>& d) { d->join(); }
inline void call(const std::function<void()>& f) { f(); }
#else
static std::thread* gThread = nullptr;
static volatile bool gQuit = false;
static volatile bool gReady = false;
#if WHICH_LOOP == 3
static void run() {
    int argc = 1;
    char name[] = "x";
    char* argv[] = {name, nullptr};
    {
        QCoreApplication app(argc, argv);
        gReady = true;
        while (!gQuit) QCoreApplication::processEvents(QEventLoop::WaitForMoreEvents);
        // what was posted for deletion
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    }
}
inline void call(const std::function<void()>& f) { f(); }
static void wake() { QCoreApplication::eventDispatcher()->wakeUp(); }
#else
#if WHICH_LOOP == 2
#define CONTEXT(x) ((x)->gobj())
static Glib::RefPtr<Glib::MainContext> context() { return Glib::MainContext::get_default(); }
#else
#define CONTEXT(x) (x)
static GMainContext* context() { return g_main_context_default(); }
#endif
static void run() {
    gReady = true;
    while (!gQuit) g_main_context_iteration(CONTEXT(context()), TRUE);
}
// GLibmm's dispatcher has to be created, started and destroyed by the thread of the loop
#if WHICH_LOOP == 2
struct Job {
    const std::function<void()>* f;
    volatile bool done;
};
static gboolean runJob(gpointer d) {
    Job* j = static_cast<Job*>(d);
    (*j->f)();
    j->done = true;
    return G_SOURCE_REMOVE;
}
inline void call(const std::function<void()>& f) {
    if (g_main_context_is_owner(CONTEXT(context()))) {
        f();
        return;
    }
    Job j{&f, false};
    GSource* s = g_idle_source_new();
    g_source_set_priority(s, G_PRIORITY_HIGH);
    g_source_set_callback(s, runJob, &j, nullptr);
    g_source_attach(s, CONTEXT(context()));
    g_source_unref(s);
    while (!j.done) sched::sleepMs(1);
}
#else
inline void call(const std::function<void()>& f) { f(); }
#endif
static void wake() { g_main_context_wakeup(CONTEXT(context())); }
#endif
// the event loop runs in a thread of its own
inline void begin() {
    if (gThread == nullptr) {
        gQuit = gReady = false;
        gThread = new std::thread(run);
        while (!gReady) sched::sleepMs(1);
    }
}
inline void end(const std::shared_ptr<Dispatcher>&) {
    if (gThread != nullptr) {
        gQuit = true;
        wake();
        gThread->join();
        delete gThread;
        gThread = nullptr;
    }
}
inline std::shared_ptr<Dispatcher> create(size_t cap) {
#if WHICH_LOOP == 1
    return Dispatcher::create(context(), cap);
#elif WHICH_LOOP == 2
    Glib::init();
    std::shared_ptr<Dispatcher> d;
    call([&]() { d = Dispatcher::create(context(), cap); });
    return d;
#else
    return Dispatcher::create(cap);
#endif
}
#endif
}  // namespace loop
