#pragma once
#include "world.h"
namespace sim {
void exchange(World& w, Sess& s, const Request* given, int variant);
int64_t drawTimeout();
void idleTrouble(World& w, Adapter& d);
Sess* anySession(World& w, Adapter& d);
extern const Scenario scExplicit, scSession, scNowhere, scIo, scIoMarathon, scIoReentrant, scIoLifecycle, scFile, scDiscovery, scObjects, scDpiManager, scChaos, scIoChaos, scTyped, scLog, scEndurance, scIoThrowing;
}
